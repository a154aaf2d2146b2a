package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/fairdatasociety/fairOS-dfs/pkg/feed"
)

// Result is what one simulated run reports.
type Result struct {
	Violations []Violation    `json:"violations"`
	Steps      int64          `json:"steps"`
	Preempts   int64          `json:"preempts"`
	Jumps      int64          `json:"jumps"`
	SimNs      int64          `json:"sim_ns"`
	Hash       string         `json:"hash"`
	State      string         `json:"state"`
	Requests   int            `json:"requests"`
	Calls      map[string]int `json:"calls,omitempty"`
	Fires      map[string]int `json:"fires,omitempty"`
	Stats      map[string]int `json:"stats,omitempty"`
	Crashes    int            `json:"crashes"`
	Boots      int            `json:"boots"`
	Trace      []string       `json:"trace,omitempty"`
	Boot       int            `json:"boot,omitempty"` // a start was in progress
	Done       bool           `json:"done"`
}

var result Result
var outFile string

// setLRU limits the node caches of the index (set by the file rt/overlay.py adds).
var setLRU = func(n int) {}

// setEF sets how many candidates a search keeps (likewise).
var setEF = func(n int) {}

// setLinks sets how many links a node of the index has (likewise), if links.
var setLinks = func(n int) {}
var links bool

// setLimits sets how large a list of visited nodes may be to be used again,
// and how many locks the cache of vectors has (likewise).
var setLimits = func(marks, shards int) {}

func infra(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "SIM-INFRA "+f+"\n", a...)
	os.Exit(46)
}

func writeOut() {
	b, _ := json.Marshal(&result)
	if outFile == "" {
		os.Stderr.Write(append(b, '\n'))
		return
	}
	if err := os.WriteFile(outFile, b, 0o644); err != nil {
		infra("%v", err)
	}
}

// clean starts this program again with a fixed environment. The arguments are
// of the same length in every run, because that moves what is allocated later.
func clean(args ...string) {
	for i, a := range args {
		if i > 0 && i < 3 {
			a, _ = filepath.Abs(a)
			if n := 240 - len(a); n > 0 {
				a = strings.Repeat("/", n) + a
			}
			args[i] = a
		}
	}
	if len(args) < 4 {
		args = append(args, "quiet")
	}
	env := []string{"SIM_CLEAN=1", "HOME=/nonexistent", "PATH=/usr/bin:/bin"}
	if f := os.Getenv("SIM_LOG"); f != "" {
		env = append(env, "SIM_LOG="+f)
	}
	self, err := os.Executable()
	if err != nil {
		infra("%v", err)
	}
	if err := os.Chdir("/"); err != nil {
		infra("%v", err)
	}
	infra("%v", syscall.Exec(self, append([]string{"sim"}, args...), env))
}

func main() {
	if len(os.Args) < 3 {
		infra("usage: sim gen PROP SEED [BIG] | sim run PROP SEED OUT | sim replay SCENARIO OUT [trace]")
	}
	var sc *Scenario
	trace := false
	switch os.Args[1] {
	case "gen":
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		b, _ := json.MarshalIndent(generate(os.Args[2], seed), "", " ")
		os.WriteFile(os.Args[4], b, 0o644)
		return
	case "run":
		// always through a file and a process of its own, so that a replay
		// of the file is the same execution
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		b, _ := json.MarshalIndent(generate(os.Args[2], seed), "", " ")
		scn := os.Args[4] + ".scn"
		if err := os.WriteFile(scn, b, 0o644); err != nil {
			infra("%v", err)
		}
		clean("replay", scn, os.Args[4])
	case "replay":
		if os.Getenv("SIM_CLEAN") == "" {
			clean(os.Args[1:]...)
		}
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			infra("%v", err)
		}
		sc = &Scenario{}
		if err := decode(b, sc); err != nil {
			infra("%v", err)
		}
		for i := range sc.Phases {
			for _, c := range sc.Phases[i].Clients {
				for _, op := range c {
					for _, d := range op.Docs {
						for k, v := range d.P {
							d.P[k] = num(v)
						}
					}
				}
			}
		}
		outFile = os.Args[3]
		trace = len(os.Args) > 4 && os.Args[4] == "trace"
	}
	var w *World
	if sc.Kind != "log" {
		// the account is the same in every run (see DESIGN.md, fault model)
		feed.SimFeedRace = sc.FeedRace
		rand.SimPow = sc.Levels
		setLRU(sc.LRU)
		setEF(sc.EF)
		setLinks(sc.Links)
		setLimits(sc.Marks, sc.Shards)
		simStart(7, 0, 0, 0, 100, 40_000_000, nil)
		w = newWorld(sc)
		w.setup()
	}
	var slog []uint64
	if f := os.Getenv("SIM_LOG"); f != "" {
		slog = make([]uint64, 4<<20)
		simSetLog(slog)
	}
	simStart(sc.Sched.Seed, sc.Sched.Policy, sc.Sched.Period, sc.Sched.Limit, sc.Sched.Tick, 40_000_000, sc.Sched.Chg)
	simFine(sc.Sched.Fine)
	t0 := time.Now()
	switch sc.Kind {
	case "log":
		runLog(sc)
	default:
		w.run()
		simEnd()
		j := &judge{w: w}
		j.all()
		result.Violations = j.v
		result.Requests = len(w.hist)
		result.Calls, result.Fires, result.Stats = w.calls, w.fires, j.stats
		for k, v := range w.probes {
			result.Stats[k] += v
		}
		if j.want > 0 {
			result.Stats["recall-want"], result.Stats["recall-got"] = j.want, j.got
		}
		result.Crashes, result.Boots = w.crashes, w.boots
		h := uint64(14695981039346656037)
		for _, r := range w.hist {
			d := fmt.Sprintf("%s %d %d %d %s", describe(r), r.Inv, r.Ret, r.T1-r.T0, r.Body)
			for i := 0; i < len(d); i++ {
				h = (h ^ uint64(d[i])) * 1099511628211
			}
			if trace {
				result.Trace = append(result.Trace, fmt.Sprintf("t=%.6fs..%.6fs inv=%d ret=%d inc=%d %s", float64(r.T0-t0.UnixNano())/1e9, float64(r.T1-t0.UnixNano())/1e9, r.Inv, r.Ret, r.Inc, describe(r)))
			}
		}
		result.State = fmt.Sprintf("%016x", h)
	}
	var hash uint64
	result.Steps, result.Preempts, result.Jumps, _, hash, _ = simStats()
	if n := simSites(); n > 0 {
		result.Stats["memory-sites"] = int(n)
	}
	result.Hash = fmt.Sprintf("%016x", hash)
	result.SimNs = time.Since(t0).Nanoseconds()
	if slog != nil {
		f, _ := os.Create(os.Getenv("SIM_LOG"))
		w := bufio.NewWriter(f)
		for _, x := range slog[:simLogLen()] {
			fmt.Fprintf(w, "%d %x %d\n", x>>32, x>>8&0xffffff, x&255)
		}
		w.Flush()
		f.Close()
	}
	result.Done = true
	writeOut()
	if len(result.Violations) > 0 {
		os.Exit(3)
	}
	os.Exit(0)
}
