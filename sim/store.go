package main

import (
	"context"
	"encoding/hex"
	"errors"
	"time"

	"github.com/ethersphere/bee/pkg/swarm"
	"golang.org/x/crypto/sha3"
)

// Store is the durable part of the world: what a crash leaves behind. It
// stands in for the Swarm network behind a bee node: immutable chunks and
// blobs by address, and single-owner chunks addressed by owner and id.
type Store struct {
	chunks, blobs map[string][]byte
}

var errStore = errors.New("connection refused")

// errNoChunk is the bee client's answer for a chunk that is not there.
var errNoChunk = errors.New("error downloading data")

// errDead: the caller is a killed process. What it still does has no effect:
// its writes are dropped and its answers go nowhere. Its reads are served, so
// that its goroutines come to an end (the feed lookups of the dependency do
// not end in reasonable time when chunks they have seen go missing).
var errDead = errors.New("process is dead")

// storeClient is one incarnation's connection to the store.
type storeClient struct {
	w   *World
	inc *Inc
}

// enter charges latency and applies the armed faults; after reports whether
// the caller must fail after taking effect, crash whether the process dies
// after the effect.
func (c *storeClient) enter(call string) (err error, after, crash bool) {
	w, inc := c.w, c.inc
	if inc.dead {
		return errDead, false, false
	}
	simHold(1)
	w.calls[call]++
	simHold(-1)
	lat := w.lat()
	if lat > 0 {
		time.Sleep(lat)
	}
	if inc.dead {
		return errDead, false, false
	}
	if !inc.armed {
		return
	}
	for _, f := range w.match(inc, call) {
		switch f.Kind {
		case "err":
			err = errStore
		case "erreffect":
			after = true
		case "stall":
			time.Sleep(time.Duration(f.Ms) * time.Millisecond)
		case "crash":
			w.kill(inc)
		case "crashafter":
			crash = true
		}
	}
	if inc.dead {
		return errDead, false, false
	}
	return
}

func (c *storeClient) leave(after, crash bool) error {
	if crash {
		c.w.kill(c.inc)
	}
	if c.inc.dead {
		return errDead
	}
	if after {
		return errStore
	}
	return nil
}

func (c *storeClient) put(m map[string][]byte, a, d []byte) {
	defer atomically()()
	if !c.inc.dead {
		m[string(a)] = append([]byte{}, d...)
	}
}

func (c *storeClient) get(m map[string][]byte, a []byte) []byte {
	defer atomically()()
	d, ok := m[string(a)]
	if !ok {
		return nil
	}
	return append([]byte{}, d...)
}

func keccak(bs ...[]byte) []byte {
	h := sha3.NewLegacyKeccak256()
	for _, b := range bs {
		h.Write(b)
	}
	return h.Sum(nil)
}

func (c *storeClient) CheckConnection() bool { return true }

func (c *storeClient) UploadSOC(owner, id, sig string, data []byte) ([]byte, error) {
	err, after, crash := c.enter("soc")
	if err != nil {
		return nil, err
	}
	o, _ := hex.DecodeString(owner)
	i, _ := hex.DecodeString(id)
	sg, _ := hex.DecodeString(sig)
	addr := keccak(i, o)
	d := append(append(append([]byte{}, i...), sg...), data...)
	c.put(c.w.store.chunks, addr, d)
	c.w.markSOC()
	return addr, c.leave(after, crash)
}

func (c *storeClient) UploadChunk(ch swarm.Chunk) ([]byte, error) {
	err, after, crash := c.enter("upchunk")
	if err != nil {
		return nil, err
	}
	c.put(c.w.store.chunks, ch.Address().Bytes(), ch.Data())
	return ch.Address().Bytes(), c.leave(after, crash)
}

func (c *storeClient) UploadBlob(data []byte, tag uint32, enc bool) ([]byte, error) {
	err, after, crash := c.enter("upblob")
	if err != nil {
		return nil, err
	}
	a := keccak(data)
	if enc {
		a = append(a, a...)
	}
	c.put(c.w.store.blobs, a, data)
	return a, c.leave(after, crash)
}

func (c *storeClient) DownloadChunk(ctx context.Context, a []byte) ([]byte, error) {
	err, after, crash := c.enter("getchunk")
	if err == nil {
		err = c.leave(after, crash)
	}
	if err != nil && err != errDead {
		return nil, err
	}
	if d := c.get(c.w.store.chunks, a); d != nil {
		return d, nil
	}
	return nil, errNoChunk
}

func (c *storeClient) DownloadBlob(a []byte) ([]byte, int, error) {
	err, after, crash := c.enter("getblob")
	if err == nil {
		err = c.leave(after, crash)
	}
	if err != nil && err != errDead {
		return nil, 500, err
	}
	if d := c.get(c.w.store.blobs, a); d != nil {
		return d, 200, nil
	}
	return nil, 404, errors.New("error downloading blob")
}

func (c *storeClient) UploadBzz(data []byte, n string) ([]byte, error) {
	return nil, errors.New("not supported")
}
func (c *storeClient) DownloadBzz(a []byte) ([]byte, int, error) {
	return nil, 404, errors.New("not supported")
}
func (c *storeClient) DeleteReference(a []byte) error {
	err, after, crash := c.enter("delref")
	if err != nil {
		return err
	}
	return c.leave(after, crash)
}
func (c *storeClient) CreateTag(a []byte) (uint32, error)           { return 0, nil }
func (c *storeClient) GetTag(t uint32) (int64, int64, int64, error) { return 0, 0, 0, nil }
