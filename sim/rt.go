package main

// Interface to the patched Go runtime (see /verif/rt).

import _ "unsafe"

//go:linkname simStart runtime.simStart
func simStart(seed uint64, policy int32, period, limit, tick, stepMax int64, chg []int64)

//go:linkname simStats runtime.simStats
func simStats() (steps, preempts, jumps, jumpedNs int64, hash uint64, now int64)

//go:linkname simAdvance runtime.simAdvance
func simAdvance(ns int64)

//go:linkname simEnd runtime.simEnd
func simEnd()

// simSetTag labels the calling goroutine and the ones it starts from now on.
//
//go:linkname simSetTag runtime.simSetTag
func simSetTag(t int64)

//go:linkname simGetTag runtime.simGetTag
func simGetTag() int64

//go:linkname simHold runtime.simHold
func simHold(n int32)

// atomically: the caller is not preempted until it calls the result.
func atomically() func() {
	simHold(1)
	return func() { simHold(-1) }
}

//go:linkname simSetLog runtime.simSetLog
func simSetLog(b []uint64)

//go:linkname simLogLen runtime.simLogLen
func simLogLen() int

// simFine makes memory accesses of the code under test preemption points.
//
//go:linkname simFine runtime.simFine
func simFine(w uint64)

//go:linkname simSites runtime.simSites
func simSites() int64
