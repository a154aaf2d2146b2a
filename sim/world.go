package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"runtime/debug"
	"time"

	"github.com/fairDataSociety/FaVe/restapi"
	"github.com/fairDataSociety/FaVe/restapi/operations"
	"github.com/fairdatasociety/fairOS-dfs/pkg/dfs"
	ensmock "github.com/fairdatasociety/fairOS-dfs/pkg/ensm/eth/mock"
	"github.com/fairdatasociety/fairOS-dfs/pkg/logging"
	"github.com/fairdatasociety/fairOS-dfs/pkg/user"
	"github.com/go-openapi/loads"
)

const never = int64(1) << 62

// hangLimit: a request with no answer after this much simulated time counts
// as never answered.
const hangLimit = 15 * time.Minute

type Inc struct {
	n       int
	dead    bool
	armed   bool
	crashed chan struct{}
	h       http.Handler
}

type ruleState struct {
	Fault
	seen, fired int
}

// Rec is one request of the recorded history.
type Rec struct {
	I        int
	Op       Op
	Client   int
	Phase    int
	Inc      int
	Inv      int64
	Ret      int64
	Out      string // ok err panic hang crashed
	Status   int
	Body     []byte
	Faulted  bool // a storage error was injected into it
	VecFault bool // an embedding failure was
	Audit    bool
	Msg      string
	soc      bool
	T0, T1   int64
}

type World struct {
	sc      *Scenario
	store   *Store
	ens     *ensmock.NamespaceManager
	inc     *Inc
	nInc    int
	calls   map[string]int
	fires   map[string]int
	rules   []*ruleState
	rng     *Rng
	hist    []*Rec
	open    map[int64]*Rec
	seq     int64
	tags    int64
	phase   int
	crashes int
	boots   int
	probes  map[string]int
}

func (w *World) lat() time.Duration {
	defer atomically()()
	d := w.sc.LatMax - w.sc.LatMin
	us := w.sc.LatMin
	if d > 0 {
		us += w.rng.N(d + 1)
	}
	return time.Duration(us) * time.Microsecond
}

func callMatches(rule, call string) bool {
	switch rule {
	case "any":
		return call != "vec"
	case "read":
		return call == "getchunk" || call == "getblob"
	case "write":
		return call == "upchunk" || call == "upblob"
	}
	return rule == call
}

// match returns the faults that hit this call.
func (w *World) match(inc *Inc, call string) []Fault {
	defer atomically()()
	var out []Fault
	for _, r := range w.rules {
		if !callMatches(r.Call, call) {
			continue
		}
		r.seen++
		if r.seen-1 < r.Nth {
			continue
		}
		if r.Kind == "stall" && call == "getchunk" && r.Ms > 1000 {
			continue // see DESIGN.md: a slow feed chunk is a missing one for the dependency
		}
		isCrash := r.Kind == "crash" || r.Kind == "crashafter"
		if isCrash {
			if r.fired > 0 || w.publishing() || (r.Kind == "crashafter" && call == "soc") || call == "soc" {
				continue
			}
		} else if r.Count >= 0 && r.fired >= r.Count {
			continue
		}
		r.fired++
		w.fires[r.Call+"/"+r.Kind]++
		if r.Kind != "stall" && r.Kind != "vslow" && !isCrash {
			w.blame(call == "vec")
		}
		out = append(out, r.Fault)
	}
	return out
}

// blame marks the request on whose behalf the current goroutine works (all
// open ones if that is unknown) as hit by an injected error.
func (w *World) blame(vec bool) {
	if r, ok := w.open[simGetTag()]; ok {
		if vec {
			r.VecFault = true
		} else {
			r.Faulted = true
		}
		return
	}
	for _, r := range w.open {
		r.Faulted = true
	}
}

// markSOC notes that the current request has begun to publish its updates
// (see DESIGN.md, fault model: publication is not atomic in the dependency).
func (w *World) markSOC() {
	defer atomically()()
	if r, ok := w.open[simGetTag()]; ok {
		r.soc = true
		return
	}
	for _, r := range w.open {
		r.soc = true
	}
}

func (w *World) publishing() bool {
	for _, r := range w.open {
		if r.soc {
			return true
		}
	}
	return false
}

func (w *World) kill(inc *Inc) {
	defer atomically()()
	if inc.dead {
		return
	}
	inc.dead = true
	w.crashes++
	close(inc.crashed)
}

func newWorld(sc *Scenario) *World {
	w := &World{sc: sc, store: &Store{map[string][]byte{}, map[string][]byte{}},
		ens: ensmock.NewMockNamespaceManager(), calls: map[string]int{}, fires: map[string]int{},
		rng: &Rng{sc.Seed ^ 0xabcdef12345}, open: map[int64]*Rec{}, probes: map[string]int{}}
	return w
}

const simUser, simPass = "simuser", "simpasswordsimpassword"

func (w *World) setup() {
	logger := logging.New(io.Discard, 0)
	inc := &Inc{crashed: make(chan struct{})}
	cl := &storeClient{w, inc}
	users := user.NewUsers(cl, w.ens, 10000, time.Hour, logger)
	d := dfs.NewMockDfsAPI(cl, users, logger)
	if _, err := d.CreateUserV2(simUser, simPass, "", ""); err != nil {
		infra("create user: %v", err)
	}
	dfs.SimNewDfsAPI = func(ctx context.Context, o *dfs.Options) (*dfs.API, error) {
		c := &storeClient{w, w.inc}
		users := user.NewUsers(c, w.ens, o.FeedCacheSize, o.FeedCacheTTL, logger)
		return dfs.NewMockDfsAPI(c, users, logger), nil
	}
	http.SimRoundTrip = w.roundTrip
	os.Setenv("USER", simUser)
	os.Setenv("PASSWORD", simPass)
	os.Setenv("POD", "simpod")
	os.Setenv("VECTORIZER_URL", "http://vectorizer:1")
	if w.sc.NoVec {
		os.Unsetenv("VECTORIZER_URL")
	}
}

// boot starts a new incarnation of the service on the durable store.
func (w *World) boot() {
	if w.inc != nil {
		w.inc.dead = true
	}
	w.inc = &Inc{n: w.nInc, crashed: make(chan struct{})}
	w.nInc++
	w.boots++
	spec, err := loads.Embedded(restapi.SwaggerJSON, restapi.FlatSwaggerJSON)
	if err != nil {
		infra("swagger: %v", err)
	}
	result.Boot = w.boots
	api := operations.NewFaveAPI(spec)
	srv := restapi.NewServer(api)
	srv.ConfigureAPI()
	w.inc.h = srv.GetHandler()
	result.Boot = 0
}

type M = map[string]interface{}

func (w *World) request(op *Op) *http.Request {
	method, path := "POST", ""
	var body interface{}
	switch op.K {
	case "create":
		path = "/v1/collections"
		ix := []M{}
		for _, i := range op.Idx {
			ix = append(ix, M{"fieldName": i[0], "fieldType": i[1]})
		}
		body = M{"name": op.C, "indexes": ix}
	case "delete":
		method, path = "DELETE", "/v1/collections/"+url.PathEscape(op.C)
	case "list":
		method, path = "GET", "/v1/collections"
	case "root":
		method, path = "GET", "/v1/"
	case "add":
		path = "/v1/documents"
		docs := []M{}
		for _, d := range op.Docs {
			p := M{}
			for k, v := range d.P {
				p[k] = v
			}
			if d.Vec != nil {
				p["vector"] = d.Vec
			}
			docs = append(docs, M{"id": d.ID, "properties": p})
		}
		vp := op.VP
		if vp == nil {
			vp = []string{"title"}
		}
		body = M{"name": op.C, "propertiesToVectorize": vp, "documents": docs}
	case "get":
		method = "GET"
		path = "/v1/documents?" + url.Values{"collection": {op.C}, "property": {op.P}, "value": {op.V}}.Encode()
	case "near":
		path = "/v1/nearest-documents-by-vector"
		body = M{"name": op.C, "vector": op.Q, "distance": op.D, "limit": op.N}
	case "text":
		path = "/v1/nearest-documents"
		body = M{"name": op.C, "text": op.T, "distance": op.D, "limit": op.N}
	case "raw":
		method, path = op.Method, op.Path
	default:
		infra("op kind %q", op.K)
	}
	var b []byte
	if body != nil {
		b, _ = json.Marshal(body)
	}
	if op.K == "raw" {
		b = []byte(op.Body)
	}
	r := httptest.NewRequest(method, path, bytes.NewReader(b))
	r.Header.Set("Content-Type", "application/json")
	return r
}

// do issues one request and records it. It returns false when the client
// must stop (the process died under it).
func (w *World) do(client int, op *Op, audit bool) bool {
	inc := w.inc
	if inc.dead {
		return false
	}
	if op.K == "sleep" {
		t := time.NewTimer(time.Duration(op.Ms) * time.Millisecond)
		select {
		case <-t.C:
			return true
		case <-inc.crashed:
			return false
		}
	}
	if op.Retry && w.tainted(op) {
		return true
	}
	req := w.request(op)
	simHold(1)
	w.seq++
	w.tags++
	rec := &Rec{I: len(w.hist), Op: *op, Client: client, Phase: w.phase, Inc: inc.n, Inv: w.seq, Ret: never, Audit: audit, Out: "crashed"}
	rec.T0 = time.Now().UnixNano()
	w.hist = append(w.hist, rec)
	tag := w.tags
	w.open[tag] = rec
	simHold(-1)
	type answer struct {
		code int
		body []byte
		pan  string
	}
	ch := make(chan answer, 1)
	go func() {
		simSetTag(tag)
		rw := httptest.NewRecorder()
		defer func() {
			if p := recover(); p != nil {
				ch <- answer{pan: fmt.Sprintf("%v\n%s", p, debug.Stack())}
			}
		}()
		inc.h.ServeHTTP(rw, req)
		ch <- answer{code: rw.Code, body: rw.Body.Bytes()}
	}()
	lim := time.NewTimer(hangLimit)
	defer lim.Stop()
	defer func() {
		defer atomically()()
		delete(w.open, tag)
		rec.T1 = time.Now().UnixNano()
	}()
	select {
	case <-inc.crashed:
		return false
	default:
	}
	select {
	case <-inc.crashed:
		return false
	case <-lim.C:
		rec.Out = "hang"
		return false
	case a := <-ch:
		defer atomically()()
		if inc.dead {
			return false // nobody got this answer
		}
		w.seq++
		rec.Ret = w.seq
		rec.Status, rec.Body, rec.Msg = a.code, a.body, a.pan
		switch {
		case a.pan != "":
			rec.Out = "panic"
		case a.code >= 200 && a.code < 300:
			rec.Out = "ok"
		default:
			rec.Out = "err"
			if len(a.body) < 400 {
				rec.Msg = string(a.body)
			} else {
				rec.Msg = string(a.body[:400])
			}
		}
		return true
	}
}

// tainted: storing one of these documents failed half way before (known
// finding: such a document cannot be added again).
func (w *World) tainted(op *Op) bool {
	defer atomically()()
	for _, h := range w.hist {
		if h.Op.K != "add" || h.Op.C != op.C || h.Out == "ok" || !(h.Faulted || h.Ret == never) {
			continue
		}
		for _, d := range h.Op.Docs {
			for _, e := range op.Docs {
				if d.ID == e.ID {
					return true
				}
			}
		}
	}
	return false
}

func (w *World) run() {
	w.boot()
	for pi := range w.sc.Phases {
		ph := &w.sc.Phases[pi]
		w.phase = pi
		if d := time.Duration(ph.Clock) * time.Millisecond; d > 0 {
			// the first minutes pass timer by timer, of a longer pause the
			// rest in one jump (a machine that was suspended)
			if long := d - 3*time.Minute; long > 0 {
				time.Sleep(2 * time.Minute)
				simAdvance(int64(long))
				d = time.Minute
			}
			time.Sleep(d)
		}
		w.rules = nil
		for _, f := range ph.Faults {
			w.rules = append(w.rules, &ruleState{Fault: f})
		}
		w.inc.armed = true
		done := make(chan int, len(ph.Clients))
		for ci := range ph.Clients {
			go func(ci int) {
				defer func() { done <- ci }()
				for oi := range ph.Clients[ci] {
					if !w.do(ci, &ph.Clients[ci][oi], false) {
						return
					}
				}
			}(ci)
		}
		for range ph.Clients {
			<-done
		}
		w.inc.armed = false
		w.rules = nil
		if w.inc.dead {
			w.boot()
		} else if ph.End == "restart" {
			w.kill(w.inc)
			w.crashes--
			w.probes["restart-idle"]++
			w.boot()
		}
		if ph.Audit {
			for _, op := range w.auditOps() {
				op := op
				if !w.do(-1, &op, true) {
					break
				}
			}
		}
	}
}

// auditOps reads everything back: what must be there, what must not.
func (w *World) auditOps() []Op {
	r := &Rng{w.sc.Seed ^ uint64(w.phase+1)*0x9e37}
	ops := []Op{{K: "list"}}
	cols := []string{}
	seen := map[string]bool{}
	docs := map[string][]Doc{}
	idx := map[string][][2]string{}
	for _, h := range w.hist {
		c := h.Op.C
		if h.Audit || c == "" || h.Op.K == "raw" {
			continue
		}
		if !seen[c] {
			seen[c] = true
			cols = append(cols, c)
		}
		if h.Op.K == "create" && len(h.Op.Idx) > len(idx[c]) {
			idx[c] = h.Op.Idx
		}
		if h.Op.K == "add" {
			docs[c] = append(docs[c], h.Op.Docs...)
		}
	}
	for _, c := range cols {
		ds := docs[c]
		perm := make([]Doc, len(ds))
		copy(perm, ds)
		for i := len(perm) - 1; i > 0; i-- {
			j := r.N(i + 1)
			perm[i], perm[j] = perm[j], perm[i]
		}
		// which kind of request comes first after a restart matters: it opens the collection
		var part []Op
		near := func() {
			var q []float32
			for _, d := range perm {
				v := docVec(&d, nil)
				if w.sc.NoVec {
					v = d.Vec
				}
				if v != nil && !d.Bad {
					q = v
					break
				}
			}
			if q == nil {
				q = []float32{1, 0.5, 0.25, 0.125, 0.5, 1}
			}
			part = append(part, Op{K: "near", C: c, Q: q, D: 2.5, N: 0})
			if len(ds) > 3 {
				part = append(part, Op{K: "near", C: c, Q: q, D: 2.5, N: r.Range(1, len(ds))})
			}
			if !w.sc.NoVec && len(q) == vecDim {
				part = append(part, Op{K: "text", C: c, T: "alpha w1 w2", D: 2.5, N: len(ds) + 5})
			}
		}
		gets := func() {
			for i, d := range perm {
				if i >= 25 {
					break
				}
				part = append(part, Op{K: "get", C: c, P: "id", V: d.ID})
				if i < 6 {
					for _, ix := range idx[c] {
						if v, ok := propText(d.P[ix[0]], ix[1], r); ok {
							part = append(part, Op{K: "get", C: c, P: ix[0], V: v})
						}
					}
				}
			}
			if len(perm) == 0 {
				part = append(part, Op{K: "get", C: c, P: "id", V: "00000000-0000-4000-8000-00000000ffff"})
			}
		}
		if r.P(50) {
			near()
			gets()
		} else {
			gets()
			near()
		}
		ops = append(ops, part...)
	}
	return ops
}
