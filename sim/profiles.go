package main

import (
	"encoding/json"
	"fmt"
)

var profiles = map[string]func(*gen){
	"C01": genStore,
	"C02": genCrash,
	"C03": genSearch,
	"C04": genBig,
	"C05": genConc,
	"C06": genIso,
	"C07": genDelete,
	"C08": genFail,
	"C09": genReadFault,
	"C10": genVec,
	"C11": genAnswer,
	"C12": genList,
	"C16": genUpsert,
}

func (g *gen) pickCol() string { return g.cols[g.r.N(len(g.cols))] }

func (g *gen) cols12(max int) {
	for i := g.r.Range(1, max); i > 0; i-- {
		g.newCol()
	}
}

func (g *gen) creates(pct int) (ops []Op) {
	for _, c := range g.cols {
		if len(g.sc.Phases) == g.start || g.r.P(pct) {
			ops = append(ops, g.create(c))
		}
	}
	return
}

// room: no more than n documents besides the bulk.
func (g *gen) room(c string, n int) bool { return len(g.docs[c])-g.bulked[c] < n }

// bulk: more documents than a node of the index has links, so that links are
// dropped again (in a few runs).
func (g *gen) bulk(c string, pct int) (ops []Op) {
	if !g.r.P(pct) {
		return nil
	}
	for n := g.r.Range(34, 60); n > 0; {
		k := g.r.Range(1, 30)
		if k > n {
			k = n
		}
		ops = append(ops, g.addN(c, k))
		g.bulked[c] += k
		n -= k
	}
	return ops
}

// genStore: what was acknowledged is there, exactly, however it is asked for.
func genStore(g *gen) {
	r := g.r
	g.cols12(2)
	big := 0
	if r.P(12) {
		big = r.Range(20, 90)
	}
	for ph := r.Range(1, 4); ph > 0; ph-- {
		ops := g.creates(10)
		for i := r.Range(1, 5); i > 0; i-- {
			c := g.pickCol()
			if big > 0 && r.P(30) {
				// all in one request
				ops = append(ops, g.addN(c, big))
				big = 0
			} else if g.room(c, 26) {
				n := r.Range(1, 4)
				if r.P(10) {
					n = r.Range(5, 12)
				}
				ops = append(ops, g.addN(c, n))
			}
			for k := r.N(3); k > 0; k-- {
				ops = append(ops, g.get(c))
			}
		}
		p := Phase{Clients: one(ops...), Audit: true}
		g.end(&p)
		g.phase(p)
	}
}

func (g *gen) crashFault() Fault {
	k := "crash"
	if g.r.P(40) {
		k = "crashafter"
	}
	return Fault{Call: g.r.Pick("any", "any", "write", "upblob", "upchunk", "read", "vec"), Nth: g.r.N(90), Count: 1, Kind: k}
}

// genCrash: the process is killed at arbitrary points.
func genCrash(g *gen) {
	r := g.r
	g.cols12(2)
	if r.P(40) {
		p := Phase{Clients: one(append(g.creates(100), g.bulk(g.cols[0], 15)...)...)}
		g.phase(p)
	}
	for ph := r.Range(2, 5); ph > 0; ph-- {
		var cl [][]Op
		n := 1
		if len(g.sc.Phases) > 0 && r.P(35) {
			n = 2
		}
		for k := 0; k < n; k++ {
			var ops []Op
			if k == 0 {
				ops = g.creates(50)
			}
			for i := r.Range(1, 4); i > 0; i-- {
				c := g.pickCol()
				if r.P(12) {
					ops = append(ops, Op{K: "delete", C: c})
					if r.P(60) {
						ops = append(ops, g.create(c))
					}
				}
				if g.room(c, 26) {
					ops = append(ops, g.addN(c, r.Range(1, 3)))
				}
				if r.P(30) {
					ops = append(ops, g.read(c))
				}
			}
			cl = append(cl, ops)
		}
		p := Phase{Clients: cl, Audit: true, End: "restart"}
		if r.N(4) > 0 {
			p.Faults = []Fault{g.crashFault()}
		}
		if r.P(20) {
			p.Clock = int64(r.Range(1, 90)) * 60_000
		}
		g.phase(p)
	}
}

// genSearch: searches of small collections, in every mix with adds.
func genSearch(g *gen) {
	r := g.r
	c := g.newCol()
	if r.P(6) {
		g.long(c)
		return
	}
	for ph := r.Range(1, 4); ph > 0; ph-- {
		ops := g.creates(10)
		for i := r.Range(1, 6); i > 0; i-- {
			if g.room(c, 26) && r.P(70) {
				ops = append(ops, g.addN(c, r.Range(1, 4)))
			}
			for k := r.N(4); k > 0; k-- {
				if r.P(30) && !g.sc.NoVec {
					ops = append(ops, g.textq(c))
				} else {
					ops = append(ops, g.near(c))
				}
			}
		}
		p := Phase{Clients: one(ops...), Audit: true}
		g.end(&p)
		g.phase(p)
	}
}

// long: hundreds of searches without a restart between them.
func (g *gen) long(c string) {
	r := g.r
	g.sc.Marks = 25500
	ops := append(g.creates(0), g.addN(c, 2))
	// a list of visited nodes starts again after 255 searches: documents are
	// added around then
	from := r.Range(170, 220)
	for n := 0; n < 300; n++ {
		q := g.near(c)
		if n > from && n < from+60 && r.P(50) && g.room(c, 26) {
			ops = append(ops, g.addN(c, 1))
			q.D, q.N = 2.1, 0
		}
		ops = append(ops, q)
	}
	g.phase(Phase{Clients: one(ops...), Audit: true})
}

// genBig: collections with more documents than a node of the index has links.
func genBig(g *gen) {
	r := g.r
	if r.P(30) {
		// small ones, where every document has to be found
		if r.P(40) {
			g.axis = 60
		}
		[]func(*gen){genSearch, genSearch, genConc, genStore}[r.N(4)](g)
		return
	}
	c := g.newCol()
	if r.P(6) {
		g.long(c)
		return
	}
	g.idx[c] = g.idx[c][:1]
	g.plain = true
	g.dim = []int{3, 6, 6, 6, 12, 12, 40, 100}[r.N(8)]
	if g.dim != vecDim {
		g.sc.NoVec = true
	}
	total := []int{40, 70, 90, 130, 200}[r.N(5)]
	if r.P(30) {
		g.sc.EF = r.Range(exactMax+1, 60)
	}
	if r.P(40) {
		g.sc.Links = r.Range(4, 12)
	}
	if r.P(30) {
		// few links and candidates
		g.sc.Links, g.sc.EF = r.Range(4, 6), r.Range(exactMax+1, 40)
		total = []int{100, 130, 170}[r.N(3)]
	}
	if r.P(30) {
		// most documents lie close to some of the others, and far from the rest
		g.sc.NoVec = true
		n := r.Range(2, 6)
		var mid [][]float32
		for i := 0; i < n; i++ {
			mid = append(mid, g.vec())
		}
		g.groups = mid
		if r.P(70) {
			g.group = r.Range(10, 80)
		}
	}
	if g.big && r.P(20) {
		total = 230
	}
	if g.sc.LRU > 0 {
		// reading nearly every node again and again takes a while
		g.sc.LRU = total / 2
		if g.sc.LatMax > 5000 {
			g.sc.LatMax = 5000
		}
	}
	for ph := r.Range(1, 3); ph > 0; ph-- {
		ops := g.creates(0)
		n := total / ph
		if ph == 1 {
			n = total
		}
		total -= n
		for n > 0 {
			k := r.Range(1, 60)
			if r.P(20) {
				k = 1
			}
			if k > n {
				k = n
			}
			ops = append(ops, g.addN(c, k))
			n -= k
			if r.P(40) {
				ops = append(ops, g.near(c))
			}
		}
		cl := one(ops...)
		if ph == 1 && len(g.sc.Phases) > 0 && r.P(50) {
			cl = append(cl, []Op{g.near(c), g.near(c), g.get(c)})
		}
		p := Phase{Clients: cl}
		g.end(&p)
		g.phase(p)
		ops = nil
		for i := 0; i < 12; i++ {
			q := g.near(c)
			q.D = 2.1
			if i%2 == 0 {
				q.N = 20
			}
			if g.sc.EF > 0 && i%2 == 0 {
				q.N = g.sc.EF + r.Range(1, 100)
				if r.P(10) {
					q.N = 1 << 50
				}
			}
			ops = append(ops, q)
		}
		// every document is found by its own vector
		ds := g.docs[c]
		for i := 0; i < 12; i++ {
			d := ds[r.N(len(ds))]
			if v := docVec(&d, nil); len(v) == g.dim {
				ops = append(ops, Op{K: "near", C: c, Q: v, D: 0.5, N: 5})
			}
		}
		g.phase(Phase{Clients: one(ops...), Audit: ph == 1})
	}
}

// genConc: several clients at once.
func genConc(g *gen) {
	r := g.r
	g.cols12(2)
	ops := g.creates(100)
	for _, c := range g.cols {
		if r.P(60) {
			ops = append(ops, g.addN(c, r.Range(1, 5)))
		}
	}
	ops = append(ops, g.bulk(g.cols[0], 6)...)
	p := Phase{Clients: one(ops...)}
	if r.P(50) {
		p.End = "restart"
	}
	g.phase(p)
	for ph := r.Range(1, 2); ph > 0; ph-- {
		var cl [][]Op
		for k := r.Range(2, 5); k > 0; k-- {
			var ops []Op
			for i := r.Range(1, 4); i > 0; i-- {
				c := g.pickCol()
				switch {
				case g.room(c, 24) && r.P(50):
					ops = append(ops, g.addN(c, r.Range(1, 3)))
				case r.P(6):
					ops = append(ops, g.create(c))
				default:
					ops = append(ops, g.read(c))
				}
			}
			cl = append(cl, ops)
		}
		p := Phase{Clients: cl, Audit: true}
		g.end(&p)
		g.phase(p)
	}
}

// genIso: several collections, sharing document ids, each in use by its own clients.
func genIso(g *gen) {
	r := g.r
	for i := r.Range(2, 4); i > 0; i-- {
		g.newCol()
	}
	g.phase(Phase{Clients: one(g.creates(100)...)})
	for ph := r.Range(1, 3); ph > 0; ph-- {
		var cl [][]Op
		for _, c := range g.cols {
			var ops []Op
			for i := r.Range(1, 4); i > 0; i-- {
				switch {
				case g.room(c, 20) && r.P(55):
					op := g.addN(c, r.Range(1, 3))
					// an id some other collection uses, for another document
					if o := g.docs[g.pickCol()]; len(o) > 0 && r.P(60) {
						id := o[r.N(len(o))].ID
						fresh := true
						for _, d := range g.docs[c] {
							fresh = fresh && d.ID != id
						}
						if fresh {
							op.Docs[0].ID = id
							g.docs[c][len(g.docs[c])-len(op.Docs)].ID = id
						}
					}
					ops = append(ops, op)
				case r.P(8):
					ops = append(ops, Op{K: "delete", C: c}, g.create(c))
				case r.P(10):
					ops = append(ops, g.get(g.pickCol()))
				default:
					ops = append(ops, g.read(c))
				}
			}
			cl = append(cl, ops)
		}
		if r.P(40) {
			var all []Op
			for _, c := range cl {
				all = append(all, c...)
			}
			cl = one(all...)
		}
		p := Phase{Clients: cl, Audit: true}
		g.end(&p)
		if r.P(15) {
			p.Faults = []Fault{g.crashFault()}
		}
		g.phase(p)
	}
}

// genDelete: collections come and go.
func genDelete(g *gen) {
	r := g.r
	g.cols12(2)
	faulty := r.P(25)
	if faulty {
		g.idle = 5
	}
	for ph := r.Range(2, 5); ph > 0; ph-- {
		if faulty && r.P(40) {
			g.failing()
		}
		ops := g.creates(40)
		for i := r.Range(1, 5); i > 0; i-- {
			c := g.pickCol()
			switch r.N(6) {
			case 0, 1:
				if g.room(c, 26) {
					ops = append(ops, g.addN(c, r.Range(1, 3)))
				}
			case 2:
				ops = append(ops, Op{K: "delete", C: c})
				if r.P(60) {
					if r.P(30) {
						ops = append(ops, g.read(c))
					}
					ops = append(ops, g.create(c))
					if g.room(c, 26) && r.P(70) {
						ops = append(ops, g.addN(c, r.Range(1, 3)))
					}
				}
			case 3:
				ops = append(ops, Op{K: "list"})
			case 4:
				ops = append(ops, g.read(c))
			case 5:
				ops = append(ops, g.create(c))
			}
		}
		cl := one(ops...)
		if r.P(40) {
			var o []Op
			for i := r.Range(1, 4); i > 0; i-- {
				c := g.pickCol()
				switch r.N(6) {
				case 0:
					o = append(o, Op{K: "delete", C: c})
				case 1:
					o = append(o, g.create(c))
				case 2:
					if g.room(c, 26) {
						o = append(o, g.addN(c, r.Range(1, 2)))
					}
				default:
					o = append(o, g.read(c))
				}
			}
			cl = append(cl, o)
		}
		p := Phase{Clients: cl, Audit: true}
		g.end(&p)
		if r.P(25) {
			p.Faults = []Fault{g.crashFault()}
		}
		g.phase(p)
		if r.P(25) {
			// the process dies in the middle of a deletion (or right after it)
			c := g.pickCol()
			f := g.crashFault()
			f.Nth = r.N(40)
			ops := []Op{{K: "delete", C: c}}
			if r.P(30) {
				ops = append(ops, g.create(c))
			}
			g.phase(Phase{Clients: one(ops...), Faults: []Fault{f}, End: "restart", Audit: r.P(50)})
			g.phase(Phase{Clients: one(g.create(c), g.addN(c, r.Range(1, 2))), Audit: true})
		}
	}
}

func (g *gen) writeFault() Fault {
	return Fault{Call: g.r.Pick("write", "upblob", "upblob"), Nth: g.r.N([]int{12, 70, 70}[g.r.N(3)]), Count: g.r.Range(1, 3), Kind: g.r.Pick("err", "err", "erreffect")}
}

// firm: the collection has documents with vectors, added while nothing went wrong.
func (g *gen) firm(c string) {
	for _, d := range g.docs[c] {
		if d.Vec != nil {
			g.solid[c] = true
		}
	}
}

// genFail: adds that fail, for reasons of their own or of the storage, and
// what is left behind.
func genFail(g *gen) {
	r := g.r
	g.idle = 5 // see DESIGN.md: unpublished leftovers of a failed add expire after an hour
	g.uniq = true
	g.plain = true
	g.cols12(2)
	ops := g.creates(100)
	for _, c := range g.cols {
		if r.P(70) {
			ops = append(ops, g.addN(c, r.Range(1, 8)))
			g.firm(c)
		} else if r.P(60) {
			// the first batch is refused
			op := g.addN(c, r.Range(1, 4))
			for i := range op.Docs {
				op.Docs[i].Vec = g.vec()
			}
			at := r.N(len(op.Docs) + 1)
			d := g.doc(c)
			d.Bad, d.Vec = true, g.odd()
			op.Docs = append(op.Docs[:at:at], append([]Doc{d}, op.Docs[at:]...)...)
			ops = append(ops, op)
		}
	}
	ops = append(ops, g.bulk(g.cols[0], 8)...)
	p := Phase{Clients: one(ops...)}
	if r.P(60) {
		p.End = "restart"
	}
	g.phase(p)
	for ph := r.Range(1, 3); ph > 0; ph-- {
		var ops, retry []Op
		if c := g.pickCol(); r.P(30) && g.room(c, 20) {
			ops = append(ops, g.addN(c, r.Range(1, 3)))
		}
		for i := r.Range(1, 4); i > 0; i-- {
			c := g.pickCol()
			switch {
			case r.P(35):
				ops = append(ops, g.badAdd(c))
			case g.room(c, 20):
				op := g.addN(c, r.Range(1, 4))
				ops = append(ops, op)
				if r.P(60) {
					op.Retry = true
					retry = append(retry, op)
				}
			}
			if r.P(20) {
				ops = append(ops, g.addN("nowhere", 1))
			}
			if r.P(30) {
				ops = append(ops, g.read(c))
			}
		}
		p := Phase{Clients: one(ops...), Audit: true}
		if r.P(65) {
			f := g.writeFault()
			p.Faults = append(p.Faults, f)
			if r.P(30) {
				// a second one soon after
				f.Nth += f.Count + r.Range(1, 25)
				f.Count = 1
				p.Faults = append(p.Faults, f)
			}
		}
		if r.P(50) {
			n := r.Range(1, 3)
			if r.P(20) {
				n = -1
			}
			p.Faults = append(p.Faults, Fault{Call: "getblob", Nth: r.N(r.Range(4, 60)), Count: n, Kind: "err"})
		}
		if r.P(25) {
			p.Faults = append(p.Faults, g.vecFault())
		}
		g.end(&p)
		g.phase(p)
		// the storage is back: sending the same again, or something else, works
		if r.P(40) {
			retry = append(retry, g.addN(g.pickCol(), r.Range(1, 2)))
		}
		p = Phase{Clients: one(retry...), Audit: true}
		g.end(&p)
		g.phase(p)
	}
}

// genReadFault: the storage cannot be read for a while.
func genReadFault(g *gen) {
	r := g.r
	g.idle = 5 // see DESIGN.md: unpublished leftovers of a failed add expire after an hour
	g.uniq = true
	g.plain = true
	c := g.newCol()
	if r.P(40) {
		// nearly every node has to be read again each time
		g.sc.LRU = r.Range(1, 3)
	}
	few := r.P(40)
	ops := g.creates(100)
	for i := r.Range(1, 3); i > 0; i-- {
		if few {
			i = 1
		}
		ops = append(ops, g.addN(c, r.Range(1, 6)))
	}
	ops = append(ops, g.bulk(c, 8)...)
	g.phase(Phase{Clients: one(ops...), End: "restart"})
	if r.P(35) {
		// one read fails in the middle of an add that reads every node more than once
		g.sc.LRU = r.Range(1, 2)
		for ph := r.Range(3, 6); ph > 0 && g.room(c, 26); ph-- {
			op := g.addN(c, 1)
			f := Fault{Call: "getblob", Nth: r.N([]int{40, 120, 400}[r.N(3)]), Count: 1, Kind: "err"}
			p := Phase{Clients: one(op), Audit: true, Faults: []Fault{f}}
			g.end(&p)
			g.phase(p)
		}
		return
	}
	for ph := r.Range(1, 3); ph > 0; ph-- {
		var cl [][]Op
		for k := r.Range(1, 2); k > 0; k-- {
			var ops []Op
			if g.room(c, 26) && r.P(40) {
				// the first to open the collection
				ops = append(ops, g.addN(c, r.Range(1, 3)))
			}
			for i := r.Range(1, 6); i > 0; i-- {
				if g.room(c, 26) && r.P(40) {
					ops = append(ops, g.addN(c, r.Range(1, 3)))
				} else {
					ops = append(ops, g.read(c))
				}
			}
			cl = append(cl, ops)
		}
		p := Phase{Clients: cl, Audit: true}
		for k := r.Range(1, 3); k > 0; k-- {
			f := Fault{Call: "getblob", Nth: r.N(r.Range(4, []int{50, 50, 150, 300}[r.N(4)])), Count: r.Range(1, 4), Kind: "err"}
			if r.P(25) {
				f.Count = r.Range(1, 12)
			}
			if r.P(20) {
				f.Kind, f.Ms, f.Count = "stall", r.Range(1, 20000), r.Range(1, 4)
			}
			if r.P(15) && f.Kind == "err" {
				f.Count = -1
			}
			p.Faults = append(p.Faults, f)
		}
		if r.P(65) {
			p.End = "restart"
		}
		g.phase(p)
	}
}

func (g *gen) vecFault() Fault {
	f := Fault{Call: "vec", Nth: g.r.N(5), Count: g.r.Range(1, 3), Kind: g.r.Pick("v500", "v503", "v500vec", "v503vec", "v429vec", "v404vec", "v200html", "vtrunc", "vempty", "vmissing", "vobj", "vbig", "vnull", "vstr", "vrefuse", "vslow", "vhang")}
	if f.Kind == "vslow" {
		f.Ms = g.r.Range(1, 20000)
	}
	return f
}

// genVec: the embedding service fails.
func genVec(g *gen) {
	r := g.r
	g.sc.NoVec = false
	g.uniq = true
	c := g.newCol()
	ops := g.creates(100)
	if r.P(60) {
		ops = append(ops, g.addN(c, r.Range(1, 4)))
	}
	g.phase(Phase{Clients: one(ops...)})
	g.firm(c)
	solid := g.solid[c]
	for ph := r.Range(1, 3); ph > 0; ph-- {
		var cl [][]Op
		var retry []Op
		for k := r.Range(1, 2); k > 0; k-- {
			var ops []Op
			for i := r.Range(1, 5); i > 0; i-- {
				if r.P(50) && g.room(c, 20) {
					op := g.addN(c, r.Range(1, 3))
					ops = append(ops, op)
					if r.P(50) {
						op.Retry = true
						retry = append(retry, op)
					}
				} else {
					ops = append(ops, g.textq(c))
				}
			}
			cl = append(cl, ops)
		}
		p := Phase{Clients: cl, Audit: true}
		for k := r.Range(1, 2); k > 0; k-- {
			f := g.vecFault()
			if solid && r.P(15) {
				// a vector that fits none of the collection
				f.Kind = "vshort"
			}
			p.Faults = append(p.Faults, f)
		}
		g.end(&p)
		g.phase(p)
		if len(retry) > 0 {
			g.phase(Phase{Clients: one(retry...), Audit: true})
		}
	}
}

// raw requests, well formed or not.
func (g *gen) raw() Op {
	r := g.r
	c := g.pickCol()
	q := func(s string) string { return fmt.Sprintf("%q", s) }
	type t struct{ m, p, b, w string }
	id := g.id()
	l := []t{
		{"POST", "/v1/documents", `{"name":` + q(c) + `,"propertiesToVectorize":["title"],"documents":[null]}`, "err"},
		{"POST", "/v1/documents", `{"name":` + q(c) + `,"propertiesToVectorize":["title"],"documents":[{"id":` + q(id) + `}]}`, "any"},
		{"POST", "/v1/documents", `{"name":` + q(c) + `,"propertiesToVectorize":["title"],"documents":[{"id":` + q(id) + `,"properties":[1]}]}`, "err"},
		{"POST", "/v1/documents", `{"name":` + q(c) + `,"propertiesToVectorize":["title"],"documents":[{"id":` + q(id) + `,"properties":"x"}]}`, "err"},
		{"POST", "/v1/documents", `{"name":` + q(c) + `,"propertiesToVectorize":["title"],"documents":[]}`, "any"},
		{"POST", "/v1/documents", `{"name":` + q(c) + `,"documents":null}`, "any"},
		{"POST", "/v1/documents", `{"name":` + q(c) + `,"documents":[{"id":"not-a-uuid","properties":{"title":"x"}}]}`, "err"},
		{"POST", "/v1/documents", `{"name":"nowhere","propertiesToVectorize":["title"],"documents":[{"id":` + q(id) + `,"properties":{"title":"x","vector":[1,2]}}]}`, "err"},
		{"POST", "/v1/documents", `{"name":` + q(c) + `,"documents":[{"id":` + q(id) + `,"properties":{"title":"x","vector":[1,0,0,0,0,0]}}]}`, "err"},
		{"POST", "/v1/documents", `{"propertiesToVectorize":["title"],"documents":[{"id":` + q(id) + `,"properties":{"title":"x","vector":[1,0,0,0,0,0]}}]}`, "err"},
		{"POST", "/v1/documents", `{"name":` + q(c) + `,"propertiesToVectorize":["title"],"documents":[{"id":` + q(id) + `,"properties":{"title":"x","vector":[1e39,0,0,0,0,0]}}]}`, "err"},
		{"POST", "/v1/documents", `{"name":`, "err"},
		{"POST", "/v1/documents", ``, "err"},
		{"POST", "/v1/documents", `null`, "any"},
		{"POST", "/v1/documents", `[]`, "err"},
		{"POST", "/v1/collections", `{"name":"","indexes":[]}`, "any"},
		{"POST", "/v1/collections", `{"indexes":[{"fieldName":"t","fieldType":"string"}]}`, "err"},
		{"POST", "/v1/collections", `{"name":"zz","indexes":[{"fieldName":"t","fieldType":"blob"}]}`, "err"},
		{"POST", "/v1/collections", `{"name":"zz","indexes":[null]}`, "err"},
		{"POST", "/v1/collections", `{"name":"zz","indexes":[{}]}`, "err"},
		{"POST", "/v1/collections", `{"name":"zz","indexes":7}`, "err"},
		{"POST", "/v1/collections", `{"name":"zz"}`, "any"},
		{"POST", "/v1/collections", `null`, "any"},
		{"POST", "/v1/nearest-documents", `{"name":` + q(c) + `}`, "any"},
		{"POST", "/v1/nearest-documents", `{"name":"nowhere","text":"x","distance":1,"limit":3}`, "err"},
		{"POST", "/v1/nearest-documents", `{"text":"x"}`, "err"},
		{"POST", "/v1/nearest-documents-by-vector", `{"name":` + q(c) + `,"vector":[],"distance":1,"limit":3}`, "any"},
		{"POST", "/v1/nearest-documents-by-vector", `{"name":` + q(c) + `,"vector":[0,0,0,0,0,0],"distance":1,"limit":3}`, "any"},
		{"POST", "/v1/nearest-documents-by-vector", `{"name":` + q(c) + `,"vector":[1,0,0,0,0,0],"distance":1,"limit":-3}`, "any"},
		{"POST", "/v1/nearest-documents-by-vector", `{"name":` + q(c) + `,"vector":[1,0,0,0,0,0],"distance":-1,"limit":3}`, "any"},
		{"POST", "/v1/nearest-documents-by-vector", `{"name":` + q(c) + `,"vector":[1,0,0,0,0,0],"distance":1,"limit":4000000000000}`, "any"},
		{"POST", "/v1/nearest-documents-by-vector", `{"name":` + q(c) + `,"vector":[1,2],"distance":1,"limit":3}`, "any"},
		{"POST", "/v1/nearest-documents-by-vector", `{"name":` + q(c) + `,"distance":1,"limit":3}`, "any"},
		{"POST", "/v1/nearest-documents-by-vector", `{"vector":[1,0,0,0,0,0],"distance":1,"limit":3}`, "err"},
		{"POST", "/v1/nearest-documents-by-vector", `{"name":` + q(c) + `,"vector":[1e39,0,0,0,0,0],"distance":1,"limit":3}`, "any"},
		{"POST", "/v1/nearest-documents-by-vector", `{"name":` + q(c) + `,"vector":["a"],"distance":1,"limit":3}`, "err"},
		{"POST", "/v1/nearest-documents-by-vector", `{"name":"nowhere","vector":[1,2,3,4,5,6],"distance":1,"limit":3}`, "err"},
		{"POST", "/v1/nearest-documents-by-vector", `null`, "any"},
		{"GET", "/v1/documents", ``, "any"},
		{"GET", "/v1/documents?collection=" + c, ``, "any"},
		{"GET", "/v1/documents?collection=" + c + "&property=none&value=x", ``, "any"},
		{"GET", "/v1/documents?collection=" + c + "&property=id&value=", ``, "any"},
		{"GET", "/v1/documents?collection=" + c + "&property=title&value=%3E%3D%3C", ``, "any"},
		{"GET", "/v1/documents?collection=&property=id&value=1", ``, "err"},
		{"GET", "/v1/documents?collection=nowhere&property=id&value=1", ``, "err"},
		{"GET", "/v1/documents/" + id, ``, "err"},
		{"DELETE", "/v1/collections/nowhere", ``, "any"},
		{"DELETE", "/v1/collections/", ``, "any"},
		{"PUT", "/v1/collections", `{}`, "err"},
		{"GET", "/v1/nosuch", ``, "err"},
		{"GET", "/v1/", ``, "any"},
	}
	if r.P(15) {
		// a request that would be fine but for one thing
		d := g.doc(c)
		if d.Vec == nil {
			d.Vec = g.vec()
		}
		props := map[string]interface{}{"vector": d.Vec}
		for k, v := range d.P {
			props[k] = v
		}
		b, _ := json.Marshal(props)
		one := `"documents":[{"id":` + q(d.ID) + `,"properties":` + string(b) + `}]`
		v, _ := json.Marshal(d.Vec)
		l = []t{
			{"POST", "/v1/documents", `{"name":` + q(c) + `,` + one + `}`, "err"},
			{"POST", "/v1/documents", `{"name":"","propertiesToVectorize":["title"],` + one + `}`, "err"},
			{"POST", "/v1/documents", `{"name":` + q(c) + `,"propertiesToVectorize":"title",` + one + `}`, "err"},
			{"POST", "/v1/nearest-documents", `{"name":` + q(c) + `,"text":"","distance":1,"limit":3}`, "err"},
			{"POST", "/v1/nearest-documents", `{"name":` + q(c) + `,"distance":1,"limit":3}`, "err"},
			{"POST", "/v1/nearest-documents", `{"name":"","text":"x","distance":1,"limit":3}`, "err"},
			{"POST", "/v1/nearest-documents-by-vector", `{"name":"","vector":` + string(v) + `,"distance":1,"limit":3}`, "err"},
		}
	}
	x := l[r.N(len(l))]
	return Op{K: "raw", Method: x.m, Path: x.p, Body: x.b, Want: x.w}
}

// genAnswer: anything may be sent and anything may go wrong; everything is
// answered, and when it stops going wrong everything works.
func genAnswer(g *gen) {
	r := g.r
	g.idle = 5 // see DESIGN.md: unpublished leftovers of a failed add expire after an hour
	g.uniq = true
	g.plain = true
	g.cols12(2)
	ops := g.creates(100)
	for i := r.N(3); i > 0; i-- {
		ops = append(ops, g.raw())
	}
	for _, c := range g.cols {
		if r.P(60) {
			ops = append(ops, g.addN(c, r.Range(1, 4)))
			g.firm(c)
		}
	}
	g.phase(Phase{Clients: one(ops...)})
	for ph := r.Range(1, 3); ph > 0; ph-- {
		if r.P(15) {
			g.failing()
		}
		var cl [][]Op
		for k := r.Range(1, 4); k > 0; k-- {
			var ops []Op
			for i := r.Range(1, 5); i > 0; i-- {
				c := g.pickCol()
				switch {
				case r.P(40):
					ops = append(ops, g.raw())
				case r.P(15):
					ops = append(ops, g.badAdd(c))
				case r.P(40) && g.room(c, 20):
					ops = append(ops, g.addN(c, r.Range(1, 3)))
				case r.P(10):
					ops = append(ops, Op{K: "sleep", Ms: r.N(5000)})
				default:
					ops = append(ops, g.read(c))
				}
			}
			cl = append(cl, ops)
		}
		p := Phase{Clients: cl}
		for k := r.Range(0, 3); k > 0; k-- {
			switch r.N(5) {
			case 0:
				p.Faults = append(p.Faults, g.writeFault())
			case 1:
				p.Faults = append(p.Faults, Fault{Call: "getblob", Nth: r.N(60), Count: r.Range(1, 3), Kind: "err"})
			case 2:
				p.Faults = append(p.Faults, g.vecFault())
			default:
				p.Faults = append(p.Faults, Fault{Call: g.r.Pick("any", "getblob", "write", "soc"), Nth: r.N(60), Count: r.Range(1, 5), Kind: "stall", Ms: r.Range(1, 5000)})
			}
		}
		g.phase(p)
		// nothing goes wrong any more
		ops := []Op{}
		for _, c := range g.cols {
			if g.room(c, 26) {
				ops = append(ops, g.addN(c, r.Range(1, 2)))
			}
			ops = append(ops, g.near(c))
		}
		p = Phase{Clients: one(ops...), Audit: true}
		g.end(&p)
		g.phase(p)
	}
}

// genList: the list of collections.
func genList(g *gen) {
	r := g.r
	for i := r.Range(1, 4); i > 0; i-- {
		g.newCol()
	}
	faulty := r.P(40)
	if faulty {
		g.idle = 5
	}
	for ph := r.Range(2, 5); ph > 0; ph-- {
		if faulty && r.P(40) {
			g.failing()
		}
		var cl [][]Op
		for k := r.Range(1, 2); k > 0; k-- {
			var ops []Op
			for i := r.Range(1, 6); i > 0; i-- {
				c := g.pickCol()
				switch r.N(8) {
				case 0, 1, 2:
					op := g.create(c)
					if r.P(25) {
						// already there or not: the first declaration counts
						op.Idx = append([][2]string{}, op.Idx...)
						op.Idx = append(op.Idx, [2]string{"extra", "number"})
					}
					ops = append(ops, op)
				case 3:
					ops = append(ops, Op{K: "delete", C: c})
				case 4:
					if g.room(c, 10) {
						op := g.addN(c, 1)
						op.Docs[0].P["extra"] = 3.0
						ops = append(ops, op)
					}
				default:
					ops = append(ops, Op{K: "list"})
				}
			}
			cl = append(cl, ops)
		}
		p := Phase{Clients: cl, Audit: true}
		g.end(&p)
		if r.P(20) {
			p.Faults = []Fault{g.crashFault()}
		}
		g.phase(p)
	}
}

// failing: collections are created and deleted while the storage fails.
func (g *gen) failing() {
	r := g.r
	g.solid = map[string]bool{} // collections may go away
	var cl [][]Op
	for k := r.Range(1, 2); k > 0; k-- {
		var ops []Op
		for i := r.Range(1, 3); i > 0; i-- {
			switch r.N(5) {
			case 0:
				ops = append(ops, Op{K: "delete", C: g.pickCol()})
			case 1:
				ops = append(ops, Op{K: "list"})
			default:
				ops = append(ops, g.create(g.pickCol()))
			}
		}
		cl = append(cl, ops)
	}
	p := Phase{Clients: cl, Audit: true}
	for k := r.Range(1, 2); k > 0; k-- {
		f := Fault{Call: "getblob", Nth: r.N(r.Range(2, 20)), Count: r.Range(1, 3), Kind: "err"}
		if r.P(65) {
			f.Call, f.Nth, f.Kind = r.Pick("write", "upblob"), r.N(r.Range(2, 9)), r.Pick("err", "err", "erreffect")
		}
		p.Faults = append(p.Faults, f)
	}
	g.end(&p)
	g.phase(p)
	if r.P(60) {
		// once more, and use it
		c := g.pickCol()
		ops := []Op{g.create(c)}
		if g.room(c, 10) {
			op := g.addN(c, 1)
			op.Docs[0].P["extra"] = 3.0
			ops = append(ops, op)
		}
		p := Phase{Clients: one(ops...), Audit: true}
		g.end(&p)
		g.phase(p)
	}
}

// genUpsert: documents are sent again under the same id.
func genUpsert(g *gen) {
	r := g.r
	g.uniq = true
	g.plain = true
	g.cols12(2)
	for ph := r.Range(1, 4); ph > 0; ph-- {
		var cl [][]Op
		n := 1
		if len(g.sc.Phases) > 0 && r.P(30) {
			n = 2
		}
		for k := 0; k < n; k++ {
			var ops []Op
			if k == 0 {
				ops = g.creates(5)
			}
			if len(g.sc.Phases) == 0 {
				ops = append(ops, g.bulk(g.cols[0], 12)...)
			}
			for i := r.Range(2, 6); i > 0; i-- {
				c := g.pickCol()
				if r.P(10) {
					// in vain, and the rest of the batch with it
					if op, ok := g.bare(c); ok {
						for k := r.N(3); k > 0; k-- {
							d := Doc{P: g.props(c), ID: g.id(), Vec: g.vec()}
							op.Docs = append([]Doc{d}, op.Docs...)
						}
						ops = append(ops, op)
					}
				}
				if op, ok := g.again(c); ok && r.P(45) {
					// alone, or among new ones, or several of them
					if r.P(30) && g.room(c, 18) {
						n := g.addN(c, r.Range(1, 2))
						if r.P(50) {
							op.Docs = append(op.Docs, n.Docs...)
						} else {
							op.Docs = append(n.Docs, op.Docs...)
						}
					}
					if r.P(25) {
						if o, ok := g.again(c); ok {
							op.Docs = append(op.Docs, o.Docs...)
						}
					}
					ops = append(ops, op)
				} else if g.room(c, 18) {
					ops = append(ops, g.addN(c, r.Range(1, 3)))
				}
				if r.P(40) {
					ops = append(ops, g.read(c))
				}
			}
			cl = append(cl, ops)
		}
		p := Phase{Clients: cl, Audit: true}
		g.end(&p)
		if r.P(20) {
			p.Faults = []Fault{g.crashFault()}
		}
		g.phase(p)
	}
}
