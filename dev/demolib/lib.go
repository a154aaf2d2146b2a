// A small stand-in for the bee node (content by address, in memory) with a
// real FaVe client on top, for demonstrations.
package main

import (
	"context"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"sync"
	"time"

	"github.com/ethersphere/bee/pkg/swarm"
	"github.com/fairDataSociety/FaVe/pkg/document"
	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
	"github.com/fairdatasociety/fairOS-dfs/pkg/dfs"
	ensmock "github.com/fairdatasociety/fairOS-dfs/pkg/ensm/eth/mock"
	"github.com/fairdatasociety/fairOS-dfs/pkg/logging"
	"github.com/fairdatasociety/fairOS-dfs/pkg/user"
	"golang.org/x/crypto/sha3"
)

type world struct {
	sync.Mutex
	chunks, blobs map[string][]byte
	ens           *ensmock.NamespaceManager
	// hook, if set, is called before each storage call; an error fails it
	hook func(call string) error
}

type process struct {
	w    *world
	dead bool
}

func (p *process) enter(call string) error {
	p.w.Lock()
	h := p.w.hook
	p.w.Unlock()
	if h != nil {
		return h(call)
	}
	return nil
}

func (p *process) put(m map[string][]byte, a, d []byte) {
	p.w.Lock()
	defer p.w.Unlock()
	if !p.dead {
		m[string(a)] = append([]byte{}, d...)
	}
}

func (p *process) get(m map[string][]byte, a []byte) []byte {
	p.w.Lock()
	defer p.w.Unlock()
	d, ok := m[string(a)]
	if !ok {
		return nil
	}
	return append([]byte{}, d...)
}

func keccak(bs ...[]byte) []byte {
	h := sha3.NewLegacyKeccak256()
	for _, b := range bs {
		h.Write(b)
	}
	return h.Sum(nil)
}

func (p *process) CheckConnection() bool { return true }

func (p *process) UploadSOC(owner, id, sig string, data []byte) ([]byte, error) {
	if err := p.enter("soc"); err != nil {
		return nil, err
	}
	ob, _ := hex.DecodeString(owner)
	ib, _ := hex.DecodeString(id)
	sb, _ := hex.DecodeString(sig)
	a := keccak(ib, ob)
	p.put(p.w.chunks, a, append(append(append([]byte{}, ib...), sb...), data...))
	return a, nil
}

func (p *process) UploadChunk(ch swarm.Chunk) ([]byte, error) {
	if err := p.enter("upchunk"); err != nil {
		return nil, err
	}
	a := ch.Address().Bytes()
	p.put(p.w.chunks, a, ch.Data())
	return a, nil
}

func (p *process) DownloadChunk(ctx context.Context, a []byte) ([]byte, error) {
	if err := p.enter("getchunk"); err != nil {
		return nil, err
	}
	d := p.get(p.w.chunks, a)
	if d == nil {
		return nil, errors.New("error downloading data")
	}
	return d, nil
}

func (p *process) UploadBlob(d []byte, tag uint32, encrypt bool) ([]byte, error) {
	if err := p.enter("upblob"); err != nil {
		return nil, err
	}
	a := keccak([]byte("blob"), d)
	p.put(p.w.blobs, a, d)
	return a, nil
}

func (p *process) DownloadBlob(a []byte) ([]byte, int, error) {
	if err := p.enter("getblob"); err != nil {
		return nil, 500, err
	}
	d := p.get(p.w.blobs, a)
	if d == nil {
		return nil, 404, errors.New("error downloading blob")
	}
	return d, 200, nil
}

func (p *process) UploadBzz(d []byte, fileName string) ([]byte, error) { return p.UploadBlob(d, 0, false) }
func (p *process) DownloadBzz(a []byte) ([]byte, int, error)          { return p.DownloadBlob(a) }
func (p *process) DeleteReference(a []byte) error                    { return nil }
func (p *process) CreateTag(a []byte) (uint32, error)                { return 1, nil }
func (p *process) GetTag(tag uint32) (int64, int64, int64, error)    { return 1, 1, 1, nil }

const demoUser, demoPass = "demouser", "demopassworddemopassword"

func newWorld() *world {
	for i := 0; i < 20; i++ {
		if w := tryWorld(); w != nil {
			return w
		}
	}
	panic("no account")
}

// tryWorld makes an account. The library cannot open about one in a hundred
// of the accounts it makes.
func tryWorld() (w *world) {
	defer func() {
		if r := recover(); r != nil {
			w = nil
		}
	}()
	x := &world{chunks: map[string][]byte{}, blobs: map[string][]byte{}, ens: ensmock.NewMockNamespaceManager()}
	logger := logging.New(io.Discard, 0)
	p := &process{w: x}
	users := user.NewUsers(p, x.ens, 10000, time.Hour, logger)
	_, err := dfs.NewMockDfsAPI(p, users, logger).CreateUserV2(demoUser, demoPass, "", "")
	must(err)
	x.start("")
	return x
}

// clone is another world with the same account and the same content.
func (w *world) clone() *world {
	w.Lock()
	defer w.Unlock()
	x := &world{chunks: map[string][]byte{}, blobs: map[string][]byte{}, ens: w.ens}
	for k, v := range w.chunks {
		x.chunks[k] = v
	}
	for k, v := range w.blobs {
		x.blobs[k] = v
	}
	return x
}

// start starts the service on what is stored.
func (w *world) start(vectorizerURL string) (*document.Client, *process) {
	logger := logging.New(io.Discard, 0)
	p := &process{w: w}
	users := user.NewUsers(p, w.ens, 10000, time.Hour, logger)
	c, err := document.New(document.Config{VectorizerUrl: vectorizerURL}, dfs.NewMockDfsAPI(p, users, logger))
	must(err)
	must(c.Login(demoUser, demoPass))
	must(c.OpenPod("demopod"))
	return c, p
}

func (w *world) setHook(h func(call string) error) {
	w.Lock()
	w.hook = h
	w.Unlock()
}

// kill drops everything the process has not written yet.
func (p *process) kill() {
	p.w.Lock()
	p.dead = true
	p.w.Unlock()
}

// vectorServer answers /vectorize with what f returns for the text.
func vectorServer(f func(w http.ResponseWriter, text string)) *httptest.Server {
	return httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.Method == http.MethodGet {
			return
		}
		q := struct {
			Query []string `json:"query"`
		}{}
		_ = json.NewDecoder(r.Body).Decode(&q)
		text := ""
		if len(q.Query) > 0 {
			text = q.Query[0]
		}
		f(w, text)
	}))
}

func create(c *document.Client, name string, fields ...string) {
	ix := map[string]collection.IndexType{}
	for _, f := range fields {
		ix[f] = collection.StringIndex
	}
	must(c.CreateCollection(&document.Collection{Name: name, Indexes: ix}))
}

// doc is a document with a vector, or without one.
func doc(id, title string, vector []float32) *document.Document {
	d := &document.Document{ID: id, Properties: map[string]interface{}{"title": title}}
	if vector != nil {
		d.Properties["vector"] = vector
	}
	return d
}

func title(data []byte) string {
	p := map[string]interface{}{}
	_ = json.Unmarshal(data, &p)
	return fmt.Sprint(p["title"])
}

type rng uint64

func (r *rng) f() float32 {
	*r = *r*6364136223846793005 + 1442695040888963407
	return float32(int64(*r>>33)%2000001-1000000) / 1e6
}

func (r *rng) vec(n int) []float32 {
	v := make([]float32, n)
	for i := range v {
		v[i] = r.f()
	}
	return v
}

func must(err error) {
	if err != nil {
		fail("unexpected error: %v", err)
	}
}

func fail(format string, args ...interface{}) {
	fmt.Printf("FAIL: "+format+"\n", args...)
	os.Exit(1)
}

func ok() {
	fmt.Println("ok")
	os.Exit(0)
}

var _ = ok
