package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"strings"
)

type gen struct {
	r      *Rng
	seed   uint64
	nid    int
	sc     *Scenario
	cols   []string
	idx    map[string][][2]string
	start  int              // first phase of this part
	solid  map[string]bool  // see firm
	docs   map[string][]Doc // everything ever sent, per collection
	dim    int
	words  int
	idle   int            // longest pause between phases, minutes
	uniq   bool           // indexed values are unique (documents may be sent again)
	big    bool           // thorough tier: larger scenarios
	axis   int            // percentage of vectors with a single component, whose distances are exact
	bulked map[string]int // documents that do not count when deciding whether to add more
	groups [][]float32    // if set, vectors lie close to one of these
	group  int            // documents of one group come in a row of this length (0: in no order)
	plain  bool           // every document has a vector of its own or an embedding
}

func (g *gen) id() string {
	g.nid++
	return fmt.Sprintf("%08x-%04x-4000-8000-%012x", uint32(g.seed*2654435761), g.seed%65536, g.nid)
}

func round(f float64) float32 { return float32(math.Round(f*1000) / 1000) }

func (g *gen) vec() []float32 {
	v := make([]float32, g.dim)
	if g.axis > 0 && g.r.P(g.axis) {
		v[g.r.N(len(v))] = []float32{1, -1, 2, 0.5}[g.r.N(4)]
		return v
	}
	var mid []float32
	if len(g.groups) > 0 && g.r.P(95) {
		k := g.r.N(len(g.groups))
		if g.group > 0 {
			k = g.nid / g.group % len(g.groups)
		}
		mid = g.groups[k]
	}
	for {
		var n float64
		for i := range v {
			v[i] = round(g.r.F()*2 - 1)
			if mid != nil {
				v[i] = round(float64(mid[i]) + float64(v[i])*0.06)
			}
			n += float64(v[i]) * float64(v[i])
		}
		if n > 0.05 {
			return v
		}
	}
}

// someVec: fresh, or equal or close to one already used in the collection.
func (g *gen) someVec(c string) []float32 {
	ds := g.docs[c]
	if len(ds) > 0 && g.r.P(25) {
		if v := docVec(&ds[g.r.N(len(ds))], nil); len(v) == g.dim {
			o := append([]float32{}, v...)
			switch g.r.N(4) {
			case 0: // the same vector
			case 1: // same direction, other length
				for i := range o {
					o[i] *= 2
				}
			default:
				o[g.r.N(len(o))] += 0.01
			}
			return o
		}
	}
	return g.vec()
}

func (g *gen) text() string {
	n := g.r.Range(1, 4)
	s := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s += " "
		}
		s += fmt.Sprintf("w%d", g.r.N(g.words))
	}
	return s
}

var oddStrings = []string{"plain", "Ünïcödé", "日本語", "with \"quotes\"", "back\\slash", "line\nbreak", "<b>&amp;</b>", "", " lead", "emoji 🙂", "tab\there", "null", "{}", "a=b"}

var oddValues = []string{"a.b", "x+", "(y", "[z", "c*", "$", "^", "q?", "k\\", "{2}", "m|n", "e=f", "g<h", "i>j", "r=>t", "!=", "v!=w", "a:b", "p/q", "../", "&", "%20", "#", " ", "Ü", "日"}

// oddNumber: another number, and another one for every number
func (g *gen) oddNumber(x float64) float64 {
	switch g.r.N(4) {
	case 0:
		return x + 1000000*float64(g.r.N(3)+1)
	case 1:
		return -x - 1
	case 2:
		return x + 0.5
	}
	return x * 1048576
}

func (g *gen) value(depth int) interface{} {
	switch g.r.N(9) {
	case 0, 1:
		if g.r.P(3) {
			// longer than a chunk of the storage, some longer than a buffer
			return strings.Repeat(oddStrings[1+g.r.N(2)]+" ", g.r.Range(300, 6000))
		}
		return oddStrings[g.r.N(len(oddStrings))]
	case 2:
		return float64(g.r.N(100000)) / 8
	case 3:
		if g.r.P(30) {
			return json.Number(fmt.Sprintf("%d", int64(1)<<60+int64(g.r.N(1<<30))*2+1))
		}
		return float64(g.r.N(1 << 30))
	case 4:
		return g.r.P(50)
	case 5:
		return nil
	case 6:
		if depth > 0 {
			n := g.r.N(4)
			l := make([]interface{}, n)
			for i := range l {
				l[i] = g.value(depth - 1)
			}
			return l
		}
		return -float64(g.r.N(50))
	case 7:
		if depth > 0 {
			m := map[string]interface{}{}
			for i := g.r.N(4); i > 0; i-- {
				m[fmt.Sprintf("k%d", g.r.N(6))] = g.value(depth - 1)
			}
			return m
		}
		return "x"
	}
	return g.text()
}

// props: properties that fit the indexes of the collection.
func (g *gen) props(c string) map[string]interface{} {
	n := 0
	if g.uniq {
		n = 1000 * (g.nid + 1)
		g.nid++
	}
	u := func(f string, k int) string {
		if g.r.P(15) {
			// what looks like a pattern, an operator or a path
			f = oddValues[g.r.N(len(oddValues))] + f
		}
		if g.uniq {
			return fmt.Sprintf("%s%dn%d", f, n, g.r.N(k))
		}
		return fmt.Sprintf("%s%d", f, g.r.N(k))
	}
	p := map[string]interface{}{"title": g.text()}
	if g.uniq || g.r.P(40) {
		g.nid++
		// no title is the start of another one (known finding)
		p["title"] = fmt.Sprintf("%s t%de", g.text(), g.nid)
	}
	for _, ix := range g.idx[c] {
		switch ix[1] {
		case "string":
			if ix[0] != "title" {
				p[ix[0]] = u("s", 40)
			}
		case "number":
			p[ix[0]] = float64(n + g.r.N(60))
			if g.r.P(20) {
				p[ix[0]] = g.oddNumber(p[ix[0]].(float64))
			}
		case "list":
			l := []interface{}{}
			for i := g.r.Range(1, 3); i > 0; i-- {
				l = append(l, u("g", 8))
			}
			p[ix[0]] = l
		case "map":
			m := map[string]interface{}{}
			for i := g.r.Range(1, 2); i > 0; i-- {
				m[fmt.Sprintf("k%d", g.r.N(3))] = u("v", 5)
			}
			p[ix[0]] = m
		}
	}
	for i := g.r.N(4); i > 0; i-- {
		p[fmt.Sprintf("x%d", g.r.N(5))] = g.value(2)
	}
	if g.r.P(15) {
		p["body"] = g.text()
	}
	if g.r.P(6) {
		// names the service uses itself
		switch g.r.N(3) {
		case 0:
			p["id"] = "legacy"
			if ds := g.docs[c]; len(ds) > 0 && g.r.P(60) {
				p["id"] = ds[g.r.N(len(ds))].ID
			}
		case 1:
			p["hnswId"] = float64(g.r.N(8))
		case 2:
			p["distance"] = 0.5
		}
	}
	return p
}

func (g *gen) doc(c string) Doc {
	d := Doc{P: g.props(c), ID: g.id()}
	if g.sc.NoVec || g.r.P(65) {
		d.Vec = g.someVec(c)
	}
	return d
}

func (g *gen) addN(c string, n int) Op {
	op := Op{K: "add", C: c, VP: []string{"title"}}
	switch {
	case !g.plain && g.r.P(8):
		op.VP = []string{"nothing"} // documents without a vector are stored, not searched
	case g.r.P(10):
		op.VP = []string{"title", "body"}
	}
	for i := 0; i < n; i++ {
		d := g.doc(c)
		if op.VP[0] == "nothing" && g.r.P(70) {
			d.Vec = nil
		}
		op.Docs = append(op.Docs, d)
		g.docs[c] = append(g.docs[c], d)
	}
	return op
}

// again is a new version of a document sent before.
func (g *gen) again(c string) (Op, bool) {
	var cand []Doc
	for _, d := range g.docs[c] {
		if d.Vec != nil {
			cand = append(cand, d)
		}
	}
	if len(cand) == 0 {
		return Op{}, false
	}
	d := Doc{ID: cand[g.r.N(len(cand))].ID, P: g.props(c), Vec: g.someVec(c)}
	g.docs[c] = append(g.docs[c], d)
	return Op{K: "add", C: c, VP: []string{"title"}, Docs: []Doc{d}, Retry: true}, true
}

// bare is a new version of a document without a vector: refused if there is
// one with a vector, stored otherwise.
func (g *gen) bare(c string) (Op, bool) {
	op, ok := g.again(c)
	if !ok {
		return op, false
	}
	op.Docs[0].Vec = nil
	g.docs[c][len(g.docs[c])-1].Vec = nil
	op.VP = []string{"nothing"}
	return op, true
}

// bad is a document the service cannot accept.
func (g *gen) bad(c string) Doc {
	d := g.doc(c)
	d.Bad = true
	if d.Vec == nil && g.sc.NoVec {
		d.Vec = g.vec()
	}
	switch g.r.N(17) {
	case 0:
		delete(d.P, "title")
	case 1:
		d.P["title"] = float64(g.r.N(9))
	case 2:
		d.P["title"] = nil
	case 3:
		d.Vec = nil
		d.P["vector"] = []interface{}{0.1, "x", 0.3}
	case 4, 10:
		d.Vec = nil
		d.P["vector"] = []interface{}{}
	case 5:
		d.Vec = nil
		d.P["vector"] = "0.1,0.2"
	case 6:
		d.ID = ""
	case 7, 11, 12:
		// not of the dimension of the rest of the batch (which carries one of the usual kind)
		d.Vec = g.odd()
	case 8:
		// too large for the precision vectors are kept in
		d.Vec = nil
		v := make([]interface{}, g.dim)
		for i := range v {
			v[i] = 0.5
		}
		v[g.r.N(len(v))] = []interface{}{1e39, -1e200, json.Number("1e999"), json.Number("-1e400")}[g.r.N(4)]
		d.P["vector"] = v
	case 9:
		d.Vec = nil
		d.P["vector"] = []interface{}{[]interface{}{0.1}, map[string]interface{}{"x": 0.5}, 0.5, true, []interface{}{0.1, nil}}[g.r.N(5)]
	default:
		ix := g.idx[c][g.r.N(len(g.idx[c]))]
		var wrong []interface{}
		switch ix[1] {
		case "number":
			wrong = []interface{}{"seven", true, nil, []interface{}{1.0}, map[string]interface{}{"a": "b"}}
		case "string":
			wrong = []interface{}{7.0, false, nil, []interface{}{"a"}, map[string]interface{}{"a": "b"}}
		case "list":
			wrong = []interface{}{"a", 7.0, nil, []interface{}{1.5}, []interface{}{"a", 1.5}, []interface{}{"a", nil}, []interface{}{[]interface{}{"a"}}, map[string]interface{}{"a": "b"}}
		case "map":
			wrong = []interface{}{"a:b", 7.0, nil, []interface{}{"a"}, map[string]interface{}{"a": 1.5}, map[string]interface{}{"a": "b", "c": nil}, map[string]interface{}{"a": []interface{}{"b"}}}
		}
		if x := g.r.N(len(wrong) + 1); x < len(wrong) {
			d.P[ix[0]] = wrong[x]
		} else {
			delete(d.P, ix[0])
		}
	}
	return d
}

// odd is a vector of a dimension that is not the usual one.
func (g *gen) odd() []float32 {
	v := make([]float32, []int{1, 2, g.dim - 1, g.dim + 1, 2 * g.dim}[g.r.N(5)])
	if len(v) == g.dim || len(v) == 0 {
		v = make([]float32, g.dim+1)
	}
	for i := range v {
		v[i] = g.vec()[0] + 0.5
	}
	return v
}

// badAdd: a batch with one bad document somewhere in it.
func (g *gen) badAdd(c string) Op {
	op := Op{K: "add", C: c, VP: []string{"title"}}
	n := g.r.Range(1, 4)
	if g.solid[c] && g.r.P(30) {
		// alone, in a collection that has documents
		d := g.bad(c)
		if g.r.P(40) {
			d = g.doc(c)
			d.Bad, d.Vec = true, g.odd()
		}
		op.Docs = append(op.Docs, d)
		return op
	}
	at := g.r.N(n + 1)
	for i := 0; i <= n; i++ {
		if i == at {
			op.Docs = append(op.Docs, g.bad(c))
			continue
		}
		d := g.doc(c)
		if d.Vec == nil {
			d.Vec = g.vec()
		}
		op.Docs = append(op.Docs, d)
	}
	return op
}

// names: none is the start of another one followed by digits (known finding).
var names = []string{"c", "book", "docs", "books", "Books", "a-b", "fave_", "x_y", "x", "Ünï"}

func (g *gen) newCol() string {
	for {
		n := names[g.r.N(len(names))]
		if g.idx[n] == nil {
			g.idx[n] = g.indexes()
			g.cols = append(g.cols, n)
			return n
		}
	}
}

func (g *gen) indexes() [][2]string {
	ix := [][2]string{{"title", "string"}}
	if g.r.P(30) {
		ix = append(ix, [2]string{"num", "number"})
	}
	if g.r.P(30) {
		ix = append(ix, [2]string{"tags", "list"})
	}
	if g.r.P(30) {
		ix = append(ix, [2]string{"meta", "map"})
	}
	if g.r.P(30) {
		ix = append(ix, [2]string{"code", "string"})
	}
	return ix
}

func (g *gen) create(c string) Op { return Op{K: "create", C: c, Idx: g.idx[c]} }

func (g *gen) get(c string) Op {
	ds := g.docs[c]
	if len(ds) == 0 || g.r.P(8) {
		return Op{K: "get", C: c, P: "id", V: fmt.Sprintf("00000000-0000-4000-8000-%012x", g.r.N(1000))}
	}
	d := ds[g.r.N(len(ds))]
	if g.r.P(35) && g.idx[c] != nil {
		ix := g.idx[c][g.r.N(len(g.idx[c]))]
		if v, ok := propText(d.P[ix[0]], ix[1], g.r); ok {
			return Op{K: "get", C: c, P: ix[0], V: v}
		}
	}
	return Op{K: "get", C: c, P: "id", V: d.ID}
}

func (g *gen) near(c string) Op {
	op := Op{K: "near", C: c, Q: g.someVec(c), D: float32([]float64{0.05, 0.3, 0.8, 1.2, 2.1, 2.1}[g.r.N(6)])}
	if axis(op.Q) && g.r.P(50) {
		// a limit some documents are at exactly
		op.D = float32(g.r.N(3))
	}
	if g.r.P(60) {
		op.N = g.r.Range(1, 12)
	}
	return op
}

func (g *gen) textq(c string) Op {
	t := g.text()
	if ds := g.docs[c]; len(ds) > 0 && g.r.P(50) {
		if s, ok := ds[g.r.N(len(ds))].P["title"].(string); ok {
			t = s
		}
	}
	return Op{K: "text", C: c, T: t, D: float32([]float64{0.05, 0.5, 1.2, 2.1}[g.r.N(4)]), N: g.r.Range(1, 15)}
}

func (g *gen) read(c string) Op {
	switch g.r.N(10) {
	case 0, 1, 2:
		return g.get(c)
	case 3, 4:
		if !g.sc.NoVec {
			return g.textq(c)
		}
	case 5:
		return Op{K: "list"}
	}
	return g.near(c)
}

func (g *gen) sched(conc bool) {
	r := g.r
	s := Sched{Seed: r.U() >> 1, Limit: 1 << 40, Tick: int64([]int{100, 1000, 10000}[r.N(3)])}
	x := r.N(10)
	switch {
	case x < 2 && !conc, x < 1:
		s.Policy = 0
	case x < 6:
		s.Policy = 1
		s.Period = int64([]int{0, 3, 10, 40, 200, 1000}[r.N(6)])
	default:
		s.Policy = 2
		s.Period = int64([]int{3, 10, 40, 200}[r.N(4)])
		for i := r.Range(1, 4); i > 0; i-- {
			s.Chg = append(s.Chg, int64(r.N(30000)))
		}
	}
	if r.P(30) || conc && r.P(40) {
		s.Fine = uint64([]int{200, 1000, 4000}[r.N(3)])
	}
	g.sc.Sched = s
	if r.P(50) {
		g.sc.Levels = []int{2, 4, 8}[r.N(3)]
	}
	if r.P(25) {
		g.sc.LRU = []int{1, 3, 8, 20}[r.N(4)]
	}
	if r.P(40) {
		g.sc.Marks = 25500
	}
	if r.P(25) {
		g.sc.Shards = []int{1, 2, 7}[r.N(3)]
	}
	switch r.N(4) {
	case 0:
	case 1:
		g.sc.LatMin, g.sc.LatMax = 0, 200
	case 2:
		g.sc.LatMin, g.sc.LatMax = 1000, 5000
	case 3:
		g.sc.LatMin, g.sc.LatMax = 0, 40000
	}
}

func (g *gen) phase(p Phase) { g.sc.Phases = append(g.sc.Phases, p) }

func (g *gen) end(p *Phase) {
	if g.r.P(45) {
		p.End = "restart"
	}
	if g.r.P(6) {
		n := 5
		if g.r.P(12) {
			n = g.idle
		}
		p.Clock = int64(g.r.Range(1, n)) * 60_000
	}
}

func one(ops ...Op) [][]Op { return [][]Op{ops} }

func generate(prop string, seed uint64) *Scenario {
	g := &gen{r: &Rng{seed*0x2545f4914f6cdd1d + uint64(len(prop))*7 + uint64(prop[len(prop)-1])}, seed: seed, idx: map[string][][2]string{}, docs: map[string][]Doc{}, solid: map[string]bool{}, bulked: map[string]int{}, dim: vecDim, words: 12, idle: 90}
	g.sc = &Scenario{Prop: prop, Seed: seed, Kind: "server"}
	g.sched(prop == "C05" || prop == "C06" || prop == "C07")
	if g.r.P(25) {
		g.sc.NoVec = true
		if prop != "C10" && prop != "C11" && g.r.P(50) {
			// below, at and above what is added up at once
			g.dim = []int{2, 3, 8, 15, 16, 17, 33, 64, 100, 300}[g.r.N(10)]
		}
	}
	if prop != "C04" && g.r.P(30) {
		g.axis = 60
	}
	f, ok := profiles[prop]
	if !ok {
		infra("unknown property %s", prop)
	}
	g.big = os.Getenv("SIM_BIG") != ""
	f(g)
	if g.big && prop != "C04" && g.r.P(35) {
		// and goes on
		g.start = len(g.sc.Phases)
		f(g)
	}
	return g.sc
}
