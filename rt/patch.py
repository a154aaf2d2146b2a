#!/usr/bin/env python3
"""Write the runtime overlay: patched copies of a few GOROOT files in OUT, and
OUT/overlay.json. Exits 2 when the toolchain is not the one expected."""
import json, os, subprocess, sys
out = sys.argv[1]
here = os.path.dirname(os.path.abspath(__file__))
goroot = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip()
src = goroot + "/src"
os.makedirs(out, exist_ok=True)
rep = {}
def put(rel, text):
    dst = os.path.join(out, rel.replace("/", "__"))
    old = None
    if os.path.exists(dst):
        old = open(dst).read()
    if old != text:
        open(dst, "w").write(text)
    rep[os.path.join(src, rel)] = dst
def patch(rel, *edits):
    s = open(os.path.join(src, rel)).read()
    for a, b in edits:
        if s.count(a) != 1:
            sys.stderr.write("runtime overlay: %s: expected exactly one %r, found %d\n" % (rel, a, s.count(a)))
            sys.exit(2)
        s = s.replace(a, b)
    put(rel, s)
put("runtime/zsim.go", open(here + "/zsim.go.txt").read())
put("runtime/time_fake.go", open(here + "/time_fake.go.txt").read())
patch("runtime/proc.go",
  ('const haveSysmon = GOARCH != "wasm"', 'const haveSysmon = false'),
  ('\tprocs := ncpu\n\tif n, ok := atoi32(gogetenv("GOMAXPROCS")); ok && n > 0 {', '\tprocs := int32(1)\n\tif n, ok := atoi32(gogetenv("GOMAXPROCS")); ok && n > 0 && !simOn {'),
  ('''	// local runq
	if gp, inheritTime := runqget(pp); gp != nil {
		return gp, inheritTime, false
	}

	// global runq
	if sched.runqsize != 0 {
		lock(&sched.lock)
		gp := globrunqget(pp, 0)
		unlock(&sched.lock)
		if gp != nil {
			return gp, false, false
		}
	}

	// Poll network.
''', '''	if gp := simPick(pp); gp != nil {
		return gp, false, false
	}
	if gcphase == _GCoff && !(netpollinited() && netpollAnyWaiters()) {
		simIdle(pollUntil)
		goto top
	}

	// Poll network.
'''),
  ('''	newg.parentGoid = callergp.goid
''', '''	newg.parentGoid = callergp.goid
	newg.simTag = callergp.simTag
'''),
  ('''	if pp.schedtick%61 == 0 && sched.runqsize > 0 {''', '''	if false {'''),
)
patch("runtime/mgcpacer.go", ('func readGOGC() int32 {\n', 'func readGOGC() int32 {\n\tif simOn {\n\t\treturn -1\n\t}\n'))
patch("runtime/runtime2.go", ('''	gcAssistBytes int64
}
''', '''	gcAssistBytes int64

	simPrio uint64
	simRuns uint32
	simTag  int64
}
'''))
patch("runtime/rand.go",
  ('''	seed := &globalRand.seed
	if startupRand != nil {''', '''	seed := &globalRand.seed
	startupRand = nil
	if true {
		for i := range seed {
			seed[i] = byte(i*7 + 1)
		}
	} else if startupRand != nil {'''),
  ('''func rand() uint64 {
''', '''func rand() uint64 {
	if simOn {
		return simNext(&simState.app)
	}
'''),
  ('''func cheaprand() uint32 {
''', '''func cheaprand() uint32 {
	if simOn {
		return uint32(simNext(&simState.rtm) >> 16)
	}
'''))
patch("runtime/malloc.go", ('''		return unsafe.Pointer(&zerobase)
	}

	// It's possible for any malloc to trigger sweeping, which may in
	// turn queue finalizers. Record this dynamic lock edge.
	lockRankMayQueueFinalizer()

	userSize := size
''', '''		return unsafe.Pointer(&zerobase)
	}
	simPoint()

	// It's possible for any malloc to trigger sweeping, which may in
	// turn queue finalizers. Record this dynamic lock edge.
	lockRankMayQueueFinalizer()

	userSize := size
'''))
# How often a map with addresses as keys grows or overflows varies with the
# layout of memory, so those allocations are no preemption points.
patch("runtime/map.go",
  ("	if uint32(rand())&mask == 0 {", "	if cheaprand()&mask == 0 {"),
  ("func (h *hmap) newoverflow(t *maptype, b *bmap) *bmap {", """//go:nosplit
func (h *hmap) newoverflow(t *maptype, b *bmap) *bmap {
	mp := acquirem()
	ovf := h.newoverflow0(t, b)
	releasem(mp)
	return ovf
}

func (h *hmap) newoverflow0(t *maptype, b *bmap) *bmap {"""),
  ("func hashGrow(t *maptype, h *hmap) {", """//go:nosplit
func hashGrow(t *maptype, h *hmap) {
	mp := acquirem()
	hashGrow0(t, h)
	releasem(mp)
}

func hashGrow0(t *maptype, h *hmap) {"""))
# a change of a map by the code under test has a preemption point inside
for f in ("runtime/map.go", "runtime/map_fast32.go", "runtime/map_fast64.go", "runtime/map_faststr.go"):
    cur = rep.get(os.path.join(src, f), os.path.join(src, f))
    a = "\th.flags ^= hashWriting\n"
    s = open(cur).read()
    if s.count(a) < 2:
        sys.stderr.write("runtime overlay: %s: no map writes found\n" % f)
        sys.exit(2)
    put(f, s.replace(a, a + "\tsimMap(getcallerpc())\n"))
# how likely a node of the index gets on higher levels is up to the simulator
patch("math/rand/rand.go", ("func Float64() float64 { return globalRand().Float64() }", """func Float64() float64 {
	f := globalRand().Float64()
	r := f
	for i := 1; i < SimPow; i++ {
		r *= f
	}
	return r
}

// SimPow, when set, makes Float64 return that power of what it would.
var SimPow int"""))
def entry(sig): return (sig, sig + "\n\tsimPoint()")
patch("runtime/chan.go",
  entry("func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {"),
  entry("func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {"))
# the runtime's own dice (cheaprand) are kept apart from the program's
patch("runtime/mprof.go", ("var MemProfileRate int = 512 * 1024", "var MemProfileRate int = 0"))
patch("runtime/iface.go",
  ("""	if cheaprand()&1023 != 0 {
		// Only bother updating the cache ~1 in 1000 times.
		return tab""", """	if simOn || cheaprand()&1023 != 0 {
		// Only bother updating the cache ~1 in 1000 times.
		return tab"""),
  ("""	if cheaprand()&1023 != 0 {
		// Only bother updating the cache ~1 in 1000 times.
		// This""", """	if simOn || cheaprand()&1023 != 0 {
		// Only bother updating the cache ~1 in 1000 times.
		// This"""))
patch("runtime/select.go", ("j := cheaprandn(uint32(norder + 1))", "j := int(simNext(&simState.app) % uint64(norder+1))"), entry("func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {"))
patch("sync/mutex.go",
  entry("func (m *Mutex) Lock() {"),
  entry("func (m *Mutex) Unlock() {"))
patch("sync/rwmutex.go",
  entry("func (rw *RWMutex) RLock() {"),
  entry("func (rw *RWMutex) RUnlock() {"),
  entry("func (rw *RWMutex) Unlock() {"))
for f in ("sync/mutex.go", "sync/rwmutex.go"):
    d = rep[os.path.join(src, f)]
    s = open(d).read().replace("\tsimPoint()", "\truntime_simPoint()")
    if s != open(d).read():
        open(d, "w").write(s)
patch("sync/runtime.go", ("func runtime_nanotime() int64\n", "func runtime_nanotime() int64\n\nfunc runtime_simPoint()\n"))
patch("crypto/rand/rand_unix.go",
  ('''func (r *reader) Read(b []byte) (n int, err error) {
	boring.Unreachable()
''', '''func runtime_simRead(b []byte)

func (r *reader) Read(b []byte) (n int, err error) {
	runtime_simRead(b)
	if true {
		return len(b), nil
	}
	boring.Unreachable()
'''))
put("crypto/rand/zsim.s", "// lets runtime_simRead be declared without a body\n")
patch("net/http/roundtrip.go", ('''func (t *Transport) RoundTrip(req *Request) (*Response, error) {
''', '''func (t *Transport) RoundTrip(req *Request) (*Response, error) {
	if SimRoundTrip != nil {
		return SimRoundTrip(req)
	}
'''))
put("net/http/zsim.go", '''package http

// SimRoundTrip, when set, is the network every client transport sees.
var SimRoundTrip func(*Request) (*Response, error)
''')
json.dump({"Replace": rep}, open(os.path.join(out, "rt.json"), "w"), indent=1)
