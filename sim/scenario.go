package main

// Scenario is one simulated execution, written out in full: replaying it is a
// pure function of this file and of the code under test.
type Scenario struct {
	Prop   string `json:"prop"`
	Seed   uint64 `json:"seed"`
	Kind   string `json:"kind"` // "server" (the whole service) or "log" (the index log on disk)
	Sched  Sched  `json:"sched"`
	LatMin int    `json:"lat_min_us"`
	LatMax int    `json:"lat_max_us"`
	NoVec  bool   `json:"no_vectorizer,omitempty"`
	Strict string `json:"strict,omitempty"` // oracle options
	// FeedRace leaves a race of the storage library's feed cache as it is
	// (known finding); in every other scenario its cache is atomic.
	FeedRace bool `json:"feed_race,omitempty"`
	// Levels: a node of the index reaches level n with the Levels-th root of
	// the probability it has otherwise, so that small indexes have many levels
	Levels int `json:"levels,omitempty"`
	// LRU limits the number of nodes the index keeps in memory
	LRU int `json:"lru,omitempty"`
	// EF is how many candidates a search keeps unless more are asked for
	EF int `json:"ef,omitempty"`
	// Links is how many links a node of the index has
	Links int `json:"links,omitempty"`
	// Marks is the size of the lists of visited nodes that are used again,
	// Shards the number of locks of the cache of vectors
	Marks  int     `json:"marks,omitempty"`
	Shards int     `json:"shards,omitempty"`
	Phases []Phase `json:"phases,omitempty"`
	Log    *LogSc  `json:"log,omitempty"`
}

type Sched struct {
	Seed   uint64  `json:"seed"`
	Policy int32   `json:"policy"` // 0 FIFO, 1 uniform random, 2 priorities with change points
	Period int64   `json:"period"` // mean distance of preemption points, 0 = only at blocking points
	Limit  int64   `json:"limit"`  // no perturbation after this many decisions
	Tick   int64   `json:"tick"`   // simulated ns per decision
	Chg    []int64 `json:"chg,omitempty"`
	// Fine: memory accesses of the code under test are preemption points too,
	// taken with probability Fine/1024/(7+times the place was passed)
	Fine uint64 `json:"fine,omitempty"`
}

// Phase: the clients run concurrently, each its own list in order. Faults are
// armed while the phase runs. Then the phase ends as End says, and the audit
// reads everything back with no faults armed.
type Phase struct {
	Clients [][]Op  `json:"clients"`
	Faults  []Fault `json:"faults,omitempty"`
	End     string  `json:"end,omitempty"` // "", "restart" (process killed while idle)
	Clock   int64   `json:"clock_ms,omitempty"`
	Audit   bool    `json:"audit,omitempty"`
}

type Op struct {
	K    string      `json:"k"` // create delete list add get near text sleep raw root
	C    string      `json:"c,omitempty"`
	Idx  [][2]string `json:"idx,omitempty"`
	Docs []Doc       `json:"docs,omitempty"`
	VP   []string    `json:"vp,omitempty"`
	P    string      `json:"p,omitempty"`
	V    string      `json:"v,omitempty"`
	Q    []float32   `json:"q,omitempty"`
	T    string      `json:"t,omitempty"`
	D    float32     `json:"d,omitempty"`
	N    int         `json:"n,omitempty"`
	Ms   int         `json:"ms,omitempty"`
	// add: skip if storing one of the documents failed half way before
	Retry bool `json:"retry,omitempty"`
	// raw requests
	Method string `json:"method,omitempty"`
	Path   string `json:"path,omitempty"`
	Body   string `json:"body,omitempty"`
	Want   string `json:"want,omitempty"` // "err": must be refused; "any": must be answered
}

type Doc struct {
	ID  string                 `json:"id"`
	P   map[string]interface{} `json:"p"`
	Vec []float32              `json:"vec,omitempty"`
	Bad bool                   `json:"bad,omitempty"` // the service cannot accept this one
}

// Fault: calls matching Call are counted from the start of the phase; the
// Nth to Nth+Count-1 (Count<0: all from the Nth) get Kind.
type Fault struct {
	Call  string `json:"call"` // getchunk getblob upchunk upblob soc read write any vec
	Nth   int    `json:"nth"`
	Count int    `json:"count"`
	Kind  string `json:"kind"` // err erreffect stall crash crashafter v500 vrefuse vgarbage vempty vhang vslow
	Ms    int    `json:"ms,omitempty"`
}
