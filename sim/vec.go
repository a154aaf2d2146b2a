package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"math"
	"net/http"
	"strings"
	"time"
)

const vecDim = 6

// embed is the embedding service: a bag of words.
func embed(text string) []float32 {
	v := make([]float64, vecDim)
	for _, t := range strings.Fields(text) {
		h := uint64(14695981039346656037)
		for i := 0; i < len(t); i++ {
			h = (h ^ uint64(t[i])) * 1099511628211
		}
		r := Rng{h}
		for i := range v {
			v[i] += r.F()*2 - 1
		}
	}
	out := make([]float32, vecDim)
	var n float64
	for i := range v {
		n += v[i] * v[i]
	}
	n = math.Sqrt(n)
	if n == 0 {
		n = 1
	}
	for i := range v {
		out[i] = float32(math.Round(v[i]/n*10000) / 10000)
	}
	return out
}

func resp(req *http.Request, code int, body []byte) *http.Response {
	return &http.Response{StatusCode: code, Status: http.StatusText(code), Proto: "HTTP/1.1",
		ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": []string{"application/json"}},
		Body: io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body)), Request: req}
}

// roundTrip is the whole network the embedding client sees.
func (w *World) roundTrip(req *http.Request) (*http.Response, error) {
	if strings.Contains(req.URL.Path, "health") {
		return resp(req, 200, []byte("{}")), nil
	}
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	simHold(1)
	w.calls["vec"]++
	simHold(-1)
	inc := w.inc
	wait := func(d time.Duration) error {
		var c <-chan time.Time
		if d > 0 {
			t := time.NewTimer(d)
			defer t.Stop()
			c = t.C
		}
		select {
		case <-c:
			return nil
		case <-req.Context().Done():
			return req.Context().Err()
		}
	}
	if err := wait(w.lat() + 1); err != nil {
		return nil, err
	}
	if inc.dead {
		return nil, errDead
	}
	if inc.armed {
		for _, f := range w.match(inc, "vec") {
			switch f.Kind {
			case "v500":
				return resp(req, 500, []byte("internal error")), nil
			case "v503":
				return resp(req, 503, []byte(`{"error":"overloaded"}`)), nil
			case "v500vec", "v503vec", "v429vec", "v404vec":
				// an error all the same, whatever it carries
				code := map[string]int{"v500vec": 500, "v503vec": 503, "v429vec": 429, "v404vec": 404}[f.Kind]
				return resp(req, code, []byte(`{"vector":[0.1,0.2,0.3,-0.4,0.5,-0.6]}`)), nil
			case "v200html":
				return resp(req, 200, []byte("<html>busy</html>")), nil
			case "vtrunc":
				return resp(req, 200, []byte(`{"vector":[0.1,0.2`)), nil
			case "vempty":
				return resp(req, 200, []byte(`{"vector":[]}`)), nil
			case "vmissing":
				return resp(req, 200, []byte(`{"detail":["x"]}`)), nil
			case "vobj":
				return resp(req, 200, []byte(`{}`)), nil
			case "vbig":
				// no 32-bit number
				return resp(req, 200, []byte(`{"vector":[0.1,0.2,1e39,-0.4,0.5,-0.6]}`)), nil
			case "vnull":
				return resp(req, 200, []byte(`{"vector":null}`)), nil
			case "vstr":
				return resp(req, 200, []byte(`{"vector":["0.1","0.2","0.3","0.4","0.5","0.6"]}`)), nil
			case "vshort":
				return resp(req, 200, []byte(`{"vector":[0.5,0.5]}`)), nil
			case "vrefuse":
				return nil, errors.New("dial tcp: connection refused")
			case "vslow":
				if err := wait(time.Duration(f.Ms) * time.Millisecond); err != nil {
					return nil, err
				}
			case "vhang":
				return nil, wait(0)
			case "crash":
				w.kill(inc)
				return nil, errDead
			}
		}
	}
	var q struct {
		Query []string `json:"query"`
	}
	if json.Unmarshal(body, &q) != nil {
		return resp(req, 400, []byte("{}")), nil
	}
	out, _ := json.Marshal(map[string][]float32{"vector": embed(strings.Join(q.Query, " "))})
	return resp(req, 200, out), nil
}
