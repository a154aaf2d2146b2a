package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
	Op    int    `json:"op"`
}

type judge struct {
	w     *World
	v     []Violation
	cols  map[string]*colHist
	stats map[string]int
	// recall accounting for collections too large for exact search
	want, got int
}

type colHist struct {
	life []*Rec
	adds []*Rec
	vers map[string][]version
	ids  []string
}

type version struct {
	add *Rec
	doc *Doc
}

func (j *judge) bad(r *Rec, class, f string, a ...interface{}) {
	j.v = append(j.v, Violation{class, fmt.Sprintf(f, a...) + " [" + describe(r) + "]", r.I})
}

func describe(r *Rec) string {
	s := fmt.Sprintf("request %d phase %d client %d %s %s", r.I, r.Phase, r.Client, r.Op.K, r.Op.C)
	switch r.Op.K {
	case "get":
		s += " " + r.Op.P + "=" + r.Op.V
	case "add":
		ids := []string{}
		for i, d := range r.Op.Docs {
			if i > 4 {
				break
			}
			ids = append(ids, short(d.ID))
		}
		s += fmt.Sprintf(" %d docs %s", len(r.Op.Docs), strings.Join(ids, ","))
	case "near", "text":
		s += fmt.Sprintf(" d=%v n=%d", r.Op.D, r.Op.N)
	case "raw":
		s += r.Op.Method + " " + r.Op.Path + " " + r.Op.Body
	}
	s += " -> " + r.Out
	if r.Status != 0 {
		s += fmt.Sprintf(" %d", r.Status)
	}
	if r.Msg != "" && r.Out != "panic" {
		m := r.Msg
		if len(m) > 160 {
			m = m[:160]
		}
		s += " " + m
	}
	if r.Faulted {
		s += " (storage fault injected)"
	}
	if r.VecFault {
		s += " (embedding fault injected)"
	}
	return s
}

func short(id string) string {
	if len(id) > 12 {
		return id[len(id)-6:]
	}
	return id
}

// docVec is the vector the document is indexed under: the one given, or the
// embedding of the properties to vectorize; nil if it has neither.
func docVec(d *Doc, vp []string) []float32 {
	if d.Vec != nil {
		return d.Vec
	}
	if vp == nil {
		vp = []string{"title"}
	}
	t := ""
	for _, p := range vp {
		if s, ok := d.P[p].(string); ok {
			t += s + " "
		}
	}
	if t == "" {
		return nil
	}
	return embed(t)
}

// propText is how a property value is asked for in a lookup.
func propText(v interface{}, typ string, r *Rng) (string, bool) {
	switch x := v.(type) {
	case string:
		return x, typ == "string" && x != ""
	case float64:
		if typ == "number" {
			return strconv.FormatFloat(x, 'f', -1, 64), true
		}
	case []interface{}:
		if typ == "list" && len(x) > 0 {
			s, ok := x[r.N(len(x))].(string)
			return s, ok && s != ""
		}
	case map[string]interface{}:
		if typ == "map" && len(x) > 0 {
			ks := []string{}
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			k := ks[r.N(len(ks))]
			s, ok := x[k].(string)
			return k + ":" + s, ok
		}
	}
	return "", false
}

func propMatches(v interface{}, want string) bool {
	switch x := v.(type) {
	case string:
		return x == want
	case float64:
		f, err := strconv.ParseFloat(want, 64)
		return err == nil && f == x
	case []interface{}:
		for _, e := range x {
			if s, ok := e.(string); ok && s == want {
				return true
			}
		}
	case map[string]interface{}:
		for k, e := range x {
			if s, ok := e.(string); ok && k+":"+s == want {
				return true
			}
		}
	}
	return false
}

func cosDist(a, b []float32) float64 {
	if len(a) != len(b) {
		return math.NaN()
	}
	var na, nb, dot float64
	for i := range a {
		na += float64(a[i]) * float64(a[i])
		nb += float64(b[i]) * float64(b[i])
		dot += float64(a[i]) * float64(b[i])
	}
	if na == 0 || nb == 0 {
		return 1
	}
	return 1 - dot/math.Sqrt(na*nb)
}

const distEps = 2e-4

// axis: a vector with a single component. Between two of them the distance is
// 0, 1 or 2, exactly, in any arithmetic.
func axis(v []float32) bool {
	n := 0
	for _, x := range v {
		if x != 0 {
			n++
		}
	}
	return n == 1
}

// exactMax: up to this many vectors every node of the index links to every
// other one, so a search has to be exact.
const exactMax = 30

func (j *judge) prepare() {
	j.cols = map[string]*colHist{}
	j.stats = map[string]int{}
	for _, r := range j.w.hist {
		if r.Op.C == "" || r.Op.K == "raw" {
			continue
		}
		c := j.cols[r.Op.C]
		if c == nil {
			c = &colHist{vers: map[string][]version{}}
			j.cols[r.Op.C] = c
		}
		switch r.Op.K {
		case "create", "delete":
			c.life = append(c.life, r)
		case "add":
			c.adds = append(c.adds, r)
			for i := range r.Op.Docs {
				d := &r.Op.Docs[i]
				if c.vers[d.ID] == nil {
					c.ids = append(c.ids, d.ID)
				}
				c.vers[d.ID] = append(c.vers[d.ID], version{r, d})
			}
		}
	}
}

const (
	no = iota
	maybe
	yes
)

// superseded: a request that certainly took effect lies between l and r.
func (c *colHist) superseded(l, r *Rec, kind string) bool {
	for _, m := range c.life {
		if m != r && m.Out == "ok" && (kind == "" || m.Op.K == kind) && m.Inv > l.Ret && m.Ret < r.Inv {
			return true
		}
		// the process that ran l is gone: it cannot take effect any more
		if m != r && m.Out == "ok" && (kind == "" || m.Op.K == kind) && l.Ret == never && m.Inc > l.Inc && m.Ret < r.Inv {
			return true
		}
	}
	return false
}

// exists: is the collection there, from the point of view of request r? And
// which create declared its indexes, if that is known?
func (c *colHist) exists(r *Rec) (int, *Rec) {
	start := &Rec{Ret: 0}
	can, cannot := false, !c.superseded(start, r, "")
	var creates []*Rec
	for _, l := range c.life {
		if l.Inv > r.Ret || l == r {
			continue
		}
		if !c.superseded(l, r, "") {
			if l.Op.K == "create" {
				can = true
			} else {
				cannot = true
			}
		}
		if l.Op.K == "create" && !c.superseded(l, r, "delete") {
			creates = append(creates, l)
		}
	}
	switch {
	case !can:
		return no, nil
	case cannot || c.torn(r):
		return maybe, nil
	}
	same := true
	for _, l := range creates {
		same = same && reflect.DeepEqual(l.Op.Idx, creates[0].Op.Idx)
	}
	if same {
		return yes, creates[0]
	}
	first := creates[0]
	if first.Out != "ok" {
		return yes, nil
	}
	for _, l := range c.life {
		if l == r || l == first || l.Inv > r.Ret {
			continue
		}
		if l.Op.K == "delete" && l.Ret > first.Inv && !(l.Ret == never && l.Inc < first.Inc) {
			return yes, nil
		}
		if l.Op.K == "create" && l.Ret > first.Inv && l.Inv < first.Ret {
			return yes, nil
		}
	}
	return yes, first
}

// status of one version of a document seen by r: 0 cannot be visible,
// 1 may be, 2 must be (unless a later version replaced it).
func (c *colHist) status(v version, r *Rec) int {
	a := v.add
	if a.Inv > r.Ret {
		return 0
	}
	if a.Out == "err" && !a.Faulted && a.Ret < r.Inv {
		// refused, or failed before anything was to be stored
		return 0
	}
	st := 2
	if a.Out != "ok" || a.Ret > r.Inv || c.torn(r) {
		st = 1
	}
	for _, l := range c.life {
		if l.Op.K != "delete" || l.Inv > r.Ret {
			continue
		}
		if l.Ret < a.Inv {
			continue
		}
		if l.Out == "ok" && l.Inv > a.Ret && l.Ret < r.Inv {
			return 0
		}
		// the incarnation that ran the request is gone: it cannot take effect any more
		if l.Out == "ok" && a.Ret == never && a.Inc < r.Inc && a.Inv < l.Inv && a.Inc < l.Inc && l.Ret < r.Inv {
			return 0
		}
		st = 1
	}
	return st
}

// look returns the versions of id that r may see and the one it must see.
func (c *colHist) look(id string, r *Rec) (poss []version, must *version) {
	vs := c.vers[id]
	st := make([]int, len(vs))
	for i, v := range vs {
		st[i] = c.status(v, r)
	}
	for i := range vs {
		if st[i] == 0 {
			continue
		}
		superseded := false
		for k := range vs {
			if k != i && st[k] == 2 && vs[k].add.Inv > vs[i].add.Ret {
				superseded = true
			}
			// later in the same batch
			if k > i && st[k] == 2 && vs[k].add == vs[i].add {
				superseded = true
			}
		}
		if !superseded {
			poss = append(poss, vs[i])
			if st[i] == 2 {
				v := vs[i]
				must = &v
			}
		}
	}
	if len(poss) > 1 {
		// several candidates: one of them must be there if any was certain
		return poss, must
	}
	return poss, must
}

func (j *judge) all() {
	j.prepare()
	for _, r := range j.w.hist {
		switch r.Out {
		case "panic":
			j.bad(r, "panic", "the request was not answered: handler panicked: %s", firstLines(r.Msg, 14))
			continue
		case "hang":
			j.bad(r, "hang", "the request was not answered within %v of simulated time", hangLimit)
			continue
		case "crashed":
			continue
		}
		j.stats["judged/"+r.Op.K+"/"+r.Out]++
		switch r.Op.K {
		case "create":
			j.create(r)
		case "delete":
			j.delete(r)
		case "list":
			j.list(r)
		case "add":
			j.add(r)
		case "get":
			j.get(r)
		case "near", "text":
			j.near(r)
		case "raw":
			if r.Op.Want == "err" && r.Out == "ok" {
				j.bad(r, "accepted", "an invalid request was reported as done")
			}
		case "root":
		}
	}
	if j.want > 0 {
		rec := float64(j.got) / float64(j.want)
		if rec < 0.95 {
			last := j.w.hist[len(j.w.hist)-1]
			j.bad(last, "recall", "searches of large collections found %d of the %d nearest documents (%.2f)", j.got, j.want, rec)
		}
	}
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

// halfway: creating or deleting this collection failed because of the storage,
// and creating it has not succeeded since. What is left can be in the way of
// every later attempt (known findings half-created, half-deleted).
func (c *colHist) halfway(r *Rec) bool {
	for _, l := range c.life {
		if l != r && l.Out == "err" && l.Faulted && l.Inv < r.Ret && !c.superseded(l, r, "create") {
			return true
		}
	}
	return c.torn(r)
}

// torn: deleting this collection failed because of the storage, and it has not
// succeeded since. Some of its indexes can be gone, also if creating it again
// was answered, because it still exists (known finding half-deleted).
func (c *colHist) torn(r *Rec) bool {
	for _, l := range c.life {
		if l != r && l.Op.K == "delete" && l.Out == "err" && l.Faulted && l.Inv < r.Ret && !c.superseded(l, r, "delete") {
			return true
		}
	}
	return false
}

func (j *judge) create(r *Rec) {
	if r.Out == "err" && !r.Faulted && (!j.cols[r.Op.C].halfway(r) || j.w.sc.Strict == "half") {
		j.bad(r, "spurious", "creating a collection failed although nothing went wrong")
	}
}

func (j *judge) delete(r *Rec) {
	s, _ := j.cols[r.Op.C].exists(r)
	if r.Out == "err" && !r.Faulted && s == yes && (!j.cols[r.Op.C].halfway(r) || j.w.sc.Strict == "half") {
		j.bad(r, "spurious", "deleting an existing collection failed although nothing went wrong")
	}
}

func (j *judge) list(r *Rec) {
	if r.Out == "err" {
		if !r.Faulted {
			j.bad(r, "spurious", "listing failed although nothing went wrong")
		}
		return
	}
	var got []struct {
		Name    string
		Indexes []struct{ FieldName, FieldType string }
	}
	if err := json.Unmarshal(r.Body, &got); err != nil {
		j.bad(r, "list", "unreadable listing: %v", err)
		return
	}
	seen := map[string]bool{}
	for _, g := range got {
		if seen[g.Name] {
			j.bad(r, "list", "collection %q is listed twice", g.Name)
		}
		seen[g.Name] = true
		c := j.cols[g.Name]
		if c == nil {
			j.bad(r, "list", "collection %q is listed but was never created", g.Name)
			continue
		}
		s, decl := c.exists(r)
		if s == no {
			j.bad(r, "list", "collection %q is listed but does not exist", g.Name)
			continue
		}
		if decl == nil {
			continue
		}
		want := map[string]string{}
		for _, i := range decl.Op.Idx {
			want[i[0]] = i[1]
		}
		have := map[string]string{}
		for _, i := range g.Indexes {
			if _, dup := have[i.FieldName]; dup {
				j.bad(r, "list", "collection %q lists index %q twice", g.Name, i.FieldName)
			}
			have[i.FieldName] = i.FieldType
		}
		for f, t := range want {
			if have[f] != t {
				j.bad(r, "list", "collection %q: index %q declared as %s is listed as %q", g.Name, f, t, have[f])
			}
		}
		for f := range have {
			if _, ok := want[f]; !ok && f != "id" && f != "hnswId" {
				j.bad(r, "list", "collection %q lists index %q that was never declared", g.Name, f)
			}
		}
	}
	for name, c := range j.cols {
		if s, _ := c.exists(r); s == yes && !seen[name] {
			j.bad(r, "list", "collection %q exists but is not listed", name)
		}
	}
}

func (j *judge) add(r *Rec) {
	s, _ := j.cols[r.Op.C].exists(r)
	anyBad := false
	for _, d := range r.Op.Docs {
		anyBad = anyBad || d.Bad
	}
	if r.Out == "ok" {
		if s == no {
			j.bad(r, "accepted", "documents were reported as added to a collection that does not exist")
		}
		if r.VecFault {
			j.bad(r, "accepted", "documents were reported as added although the embedding of one of them failed")
		}
		if anyBad {
			j.bad(r, "accepted", "a batch with a document that cannot be indexed was reported as added")
		}
		return
	}
	if !r.Faulted && !r.VecFault && !anyBad && s == yes && !j.bare(r) {
		j.bad(r, "spurious", "adding documents failed although nothing went wrong")
	}
}

// bare: the batch has a document without a vector whose id may be the one of
// a document with a vector. It is refused.
func (j *judge) bare(r *Rec) bool {
	c := j.cols[r.Op.C]
	for i := range r.Op.Docs {
		d := &r.Op.Docs[i]
		if docVec(d, r.Op.VP) != nil {
			continue
		}
		for _, v := range c.vers[d.ID] {
			if v.doc != d && v.add.Inv < r.Ret && docVec(v.doc, v.add.Op.VP) != nil {
				return true
			}
		}
	}
	return false
}

// decode keeps numbers as they are written.
func decode(b []byte, v interface{}) error {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	return d.Decode(v)
}

// num brings values to a common form: numbers are float64, except for integers
// that are too large for it.
func num(v interface{}) interface{} {
	switch x := v.(type) {
	case json.Number:
		f, err := x.Float64()
		if err != nil || math.Abs(f) >= 1<<53 && !strings.ContainsAny(string(x), ".eE") {
			return x
		}
		return f
	case map[string]interface{}:
		o := map[string]interface{}{}
		for k, e := range x {
			o[k] = num(e)
		}
		return o
	case []interface{}:
		o := make([]interface{}, len(x))
		for i, e := range x {
			o[i] = num(e)
		}
		return o
	case int:
		return float64(x)
	case float32:
		return float64(x)
	}
	return v
}

// reserved: properties the service uses for itself, whatever a document has
// under these names.
var reserved = map[string]bool{"id": true, "hnswId": true, "distance": true, "vector": true}

func sameProps(sent map[string]interface{}, got map[string]interface{}) bool {
	a := map[string]interface{}{}
	for k, v := range got {
		// hnswId and distance are part of what the service answers; the
		// document's own id and its vector are not among its properties
		if k != "hnswId" && k != "distance" {
			a[k] = num(v)
		}
	}
	b := map[string]interface{}{}
	for k, v := range sent {
		if !reserved[k] {
			b[k] = num(v)
		}
	}
	return reflect.DeepEqual(a, b)
}

// identify finds which version of which document a returned document is.
func (j *judge) identify(r *Rec, c *colHist, id string, props map[string]interface{}) *version {
	vs := c.vers[id]
	if vs == nil {
		for name, o := range j.cols {
			if o != c && o.vers[id] != nil {
				j.bad(r, "isolation", "returned document %s, which belongs to collection %q", short(id), name)
				return nil
			}
		}
		j.bad(r, "phantom", "returned document %q, which was never sent to this collection", id)
		return nil
	}
	poss, _ := c.look(id, r)
	for i := range poss {
		if sameProps(poss[i].doc.P, props) {
			return &poss[i]
		}
	}
	for _, v := range vs {
		if sameProps(v.doc.P, props) {
			if len(poss) == 0 {
				j.bad(r, "resurrect", "returned document %s, which cannot be there (its collection was deleted, or it was not sent yet)", short(id))
			} else {
				j.bad(r, "stale", "returned a replaced version of document %s", short(id))
			}
			return nil
		}
	}
	b, _ := json.Marshal(props)
	s, _ := json.Marshal(vs[0].doc.P)
	j.bad(r, "corrupt", "document %s came back as %.200s but was sent as %.200s", short(id), b, s)
	return nil
}

type respDoc struct {
	ID         string                 `json:"id"`
	Properties map[string]interface{} `json:"properties"`
}

func (j *judge) get(r *Rec) {
	c := j.cols[r.Op.C]
	s, decl := c.exists(r)
	if r.Out == "err" {
		if r.Faulted || s != yes {
			return
		}
		if r.Op.P != "id" {
			// only an indexed property can be asked for
			indexed := false
			if decl != nil {
				for _, ix := range decl.Op.Idx {
					indexed = indexed || ix[0] == r.Op.P
				}
			}
			if !indexed {
				return
			}
		}
		for _, id := range c.ids {
			poss, must := c.look(id, r)
			if must == nil {
				continue
			}
			match := true
			for _, p := range poss {
				if !j.pmatch(p.doc, r.Op.P, r.Op.V) {
					match = false
				}
			}
			if match {
				j.bad(r, "lost", "document %s was acknowledged and matches, but the lookup found nothing", short(id))
				return
			}
		}
		return
	}
	if s == no {
		j.bad(r, "resurrect", "a lookup in a collection that does not exist returned a document")
		return
	}
	var d respDoc
	if err := decode(r.Body, &d); err != nil {
		j.bad(r, "corrupt", "unreadable answer: %v", err)
		return
	}
	v := j.identify(r, c, d.ID, d.Properties)
	if v == nil {
		return
	}
	if !j.pmatch(v.doc, r.Op.P, r.Op.V) {
		j.bad(r, "wrongdoc", "the lookup returned document %s, whose %s is %v", short(d.ID), r.Op.P, v.doc.P[r.Op.P])
	}
}

func (j *judge) pmatch(d *Doc, p, v string) bool {
	if p == "id" {
		return d.ID == v
	}
	return propMatches(num(d.P[p]), v)
}

func (j *judge) near(r *Rec) {
	c := j.cols[r.Op.C]
	s, _ := c.exists(r)
	if r.Out == "err" {
		if !r.Faulted && !(r.VecFault && r.Op.K == "text") && s == yes {
			j.bad(r, "spurious", "the search failed although nothing went wrong")
		}
		return
	}
	if s == no {
		j.bad(r, "resurrect", "a search in a collection that does not exist was answered")
		return
	}
	if r.VecFault {
		j.bad(r, "accepted", "a search was answered although the embedding of its text failed")
		return
	}
	q := r.Op.Q
	if r.Op.K == "text" {
		q = embed(r.Op.T)
	}
	var out struct {
		Documents []respDoc `json:"documents"`
	}
	if err := decode(r.Body, &out); err != nil {
		j.bad(r, "corrupt", "unreadable answer: %v", err)
		return
	}
	if r.Op.N > 0 && len(out.Documents) > r.Op.N {
		j.bad(r, "limit", "%d documents returned for a limit of %d", len(out.Documents), r.Op.N)
	}
	seen := map[string]bool{}
	last := math.Inf(-1)
	for i, d := range out.Documents {
		v := j.identify(r, c, d.ID, d.Properties)
		if v == nil {
			continue
		}
		if seen[d.ID] {
			j.bad(r, "dup", "document %s is returned twice", short(d.ID))
		}
		seen[d.ID] = true
		dist, ok := num(d.Properties["distance"]).(float64)
		if !ok {
			j.bad(r, "dist", "result %d has no distance", i)
			continue
		}
		vec := docVec(v.doc, v.add.Op.VP)
		if vec == nil {
			j.bad(r, "dist", "document %s has no vector but was returned at distance %v", short(d.ID), dist)
			continue
		}
		if true {
			want := cosDist(q, vec)
			if !(math.Abs(want-dist) < distEps) {
				j.bad(r, "dist", "document %s is at distance %.6f but reported at %.6f", short(d.ID), want, dist)
			}
		}
		if dist > float64(r.Op.D)+1e-6 {
			j.bad(r, "maxdist", "document %s at %.6f is beyond the requested distance %v", short(d.ID), dist, r.Op.D)
		}
		if dist < last {
			j.bad(r, "order", "results are not in order of distance: %.6f after %.6f", dist, last)
		}
		last = dist
	}
	// completeness
	if r.Op.N == 0 && r.Op.K == "text" {
		return
	}
	full := r.Op.N > 0 && len(out.Documents) >= r.Op.N
	type exp struct {
		id string
		d  float64
	}
	var want []exp
	nodes := 0
	for _, id := range c.ids {
		for _, v := range c.vers[id] {
			if docVec(v.doc, v.add.Op.VP) != nil && v.add.Inv < r.Ret {
				nodes++
			}
		}
		poss, must := c.look(id, r)
		if must == nil {
			continue
		}
		d, eps := -1.0, distEps
		if axis(q) {
			eps = 0
		}
		for _, p := range poss {
			vec := docVec(p.doc, p.add.Op.VP)
			if vec == nil || len(vec) != len(q) {
				d = 9
				break
			}
			d = math.Max(d, cosDist(q, vec))
			if !axis(vec) {
				eps = distEps
			}
		}
		if d < float64(r.Op.D)-eps || eps == 0 && d <= float64(r.Op.D) {
			want = append(want, exp{id, d})
		}
	}
	exact := exactMax
	if n := j.w.sc.Links; n > 0 && n < exact {
		exact = n
	}
	if nodes <= exact {
		j.stats["exact-searches"]++
		for _, e := range want {
			if seen[e.id] || (full && last <= e.d+distEps) {
				continue
			}
			j.bad(r, "incomplete", "acknowledged document %s at distance %.4f is missing from a search answered with %d documents", short(e.id), e.d, len(out.Documents))
			return
		}
		return
	}
	// large collection: the index is approximate, count
	j.stats["recall-searches"]++
	sort.Slice(want, func(a, b int) bool { return want[a].d < want[b].d })
	k := len(want)
	if r.Op.N > 0 {
		k = r.Op.N
	} else if j.w.sc.EF > 0 {
		k = 20
	}
	if len(want) > k {
		want = want[:k]
	}
	for _, e := range want {
		j.want++
		if seen[e.id] || (full && last <= e.d+distEps) {
			j.got++
		}
	}
}
