//go:build go1.22

// Monitor of C01: the same byte stream delivered whole and in many segmentations must give the same history.
package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"strings"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
	. "github.com/indigo-web/indigo/internal/zzverif/vsrv"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/inbuilt/middleware"
)

type history struct {
	snaps []string
	out   []byte
	ok    bool
	calls int
}

// delivery is how the bytes arrive.
type delivery struct {
	Name    string
	Cuts    []int
	One     int
	Buffer  int
	WithEnd bool
	Timeout bool
}

func modeOf(s Snap) string {
	h := fnv.New32a()
	fmt.Fprint(h, s.Path, s.Query, len(s.Headers), s.Length)
	modes := append([]string{"none", "partial1", "partial5", "partial40"}, BodyModes...)
	return modes[int(h.Sum32())%len(modes)]
}

func handler(h *history) func(req *http.Request) *http.Response {
	return func(req *http.Request) *http.Response {
		h.calls++
		s := Take(req)
		mode := modeOf(s)
		body, err := ReadBody(req, mode)
		s.Mode = mode
		if err != nil {
			s.BodyErr = "error"
		} else {
			s.Body = body
		}
		h.snaps = append(h.snaps, fmt.Sprintf("%+v", s))
		if err != nil {
			return http.Error(req, err, 400).String("bad body")
		}
		resp := http.Bytes(req, []byte(s.Method+" "+s.Path+" ")).Header("X-Mode", mode)
		_, _ = resp.Write(body)
		if len(s.Query) > 0 {
			resp.Header("X-Query", fmt.Sprint(len(s.Query)))
		}
		if s.Length%3 == 1 {
			return req.Respond().Attachment(bytes.NewReader([]byte("stream of "+s.Path)), -1)
		}
		return resp
	}
}

func run(r *Run, stream []byte, d delivery, fab string) history {
	var h history
	conn := &Conn{In: stream, Cuts: append([]int(nil), d.Cuts...), One: d.One, WithEnd: d.WithEnd}
	if d.Timeout {
		conn.End = os.ErrDeadlineExceeded
	}
	cfg := config.Default()
	// far away from the limits, also for mutated requests
	cfg.Headers.MaxKeyLength, cfg.Headers.KeySpace.Maximal, cfg.Headers.ValueSpace.Maximal = 1<<20, 1<<20, 1<<20
	cfg.Headers.MaxValueLength, cfg.Headers.Number.Maximal, cfg.URL.BufferSize.Maximal = 1<<20, 10000, 1<<20
	cfg.Headers.MaxEncodingTokens = 1000
	cfg.Headers.Default = map[string]string{"Server": "x"}
	if d.Buffer > 0 {
		cfg.TCP.ReadBufferSize = d.Buffer
	}
	var rt router.Router
	if fab == "simple" {
		rt = Router{Req: handler(&h)}
	} else {
		rt = inbuilt.New().
			Use(middleware.Recover).
			Get("/", handler(&h)).
			Post("/a/{b}", handler(&h)).
			Catch("/", handler(&h)).
			Initialize()
	}
	c := map[string]any{"stream": Q(stream), "delivery": d, "router": fab}
	h.ok = Serve(r, "serve", c, cfg, conn, rt)
	h.out = conn.Out.Bytes()
	return h
}

func same(a, b history) string {
	if len(a.snaps) != len(b.snaps) {
		return fmt.Sprintf("%d requests instead of %d:\n%s\n---\n%s", len(b.snaps), len(a.snaps), strings.Join(b.snaps, "\n"), strings.Join(a.snaps, "\n"))
	}
	for i := range a.snaps {
		if a.snaps[i] != b.snaps[i] {
			return fmt.Sprintf("request %d is\n%s\ninstead of\n%s", i, b.snaps[i], a.snaps[i])
		}
	}
	if !bytes.Equal(a.out, b.out) {
		return fmt.Sprintf("the output is\n%q\ninstead of\n%q", b.out, a.out)
	}
	return ""
}

func check(r *Run, stream []byte, ds []delivery, fab string) {
	ref := run(r, stream, delivery{Name: "whole", Buffer: len(stream) + 1}, fab)
	if !ref.ok {
		return
	}
	r.Count("streams", 1)
	r.Count("requests_seen", int64(ref.calls))
	if ref.calls == 0 {
		r.Count("streams_without_request", 1)
	}
	for _, d := range ds {
		h := run(r, stream, d, fab)
		r.Eval(fmt.Sprintf("%s/%v/%s", d.Name, d, stream))
		r.Count("deliveries", 1)
		if !h.ok {
			return
		}
		if diff := same(ref, h); diff != "" {
			r.Violate("segmentation", map[string]any{"stream": Q(stream), "delivery": d, "router": fab}, "delivered as %s: %s", d.Name, diff)
			return
		}
	}
	r.Sample("stream", Q(stream))
}

func deliveries(g *rand.Rand, n int) []delivery {
	ds := []delivery{
		{Name: "byte by byte", One: 1},
		{Name: "two bytes", One: 2},
		{Name: "default buffer"},
		{Name: "default buffer, end with data", WithEnd: true},
		{Name: "default buffer, timeout at the end", Timeout: true},
		{Name: "tiny buffer", Buffer: 1 + g.Intn(3)},
		{Name: "small buffer", Buffer: 4 + g.Intn(60)},
	}
	for i := 0; i < 4; i++ {
		ds = append(ds, delivery{Name: "random cuts", Cuts: RandomCuts(g, n), WithEnd: Chance(g, 20)})
	}
	ds = append(ds, delivery{Name: "random cuts and small buffer", Cuts: RandomCuts(g, n), Buffer: 1 + g.Intn(30)})
	for i := 0; i < 3 && n > 1; i++ {
		ds = append(ds, delivery{Name: "one cut", Cuts: []int{1 + g.Intn(n-1)}})
	}
	return ds
}

func mutate(g *rand.Rand, s []byte) []byte {
	s = bytes.Clone(s)
	for n := 1 + g.Intn(3); n > 0 && len(s) > 0; n-- {
		i := g.Intn(len(s))
		c := Pick(g, []byte{'\r', '\n', ' ', ':', 0, '%', ',', '0', '9', 'x', '\t', 0xff, byte(g.Intn(256))})
		switch g.Intn(5) {
		case 0:
			s[i] = c
		case 1:
			s = append(s[:i], s[i+1:]...)
		case 2:
			s = append(s[:i], append([]byte{c}, s[i:]...)...)
		case 3:
			s = s[:i]
		case 4:
			j := i + g.Intn(len(s)-i)
			s = append(s[:i], s[j:]...)
		}
	}
	return s
}

var tricky = []string{
	"GET / HTTP/1.1\r\n\r\n", "GET / HTTP/1.1\n\n", "GET  HTTP/1.1\r\n\r\n", "GET /\r\n\r\n", "GET / \r\n\r\n", "GET / HTTP/1.1\r\nA\r\n\r\n",
	"GET / HTTP/1.1\r\nA\nB: c\r\n\r\n", "GET / HTTP/1.1\r\n: x\r\n\r\n", "GET / HTTP/1.1\r\nA:\r\n\r\n", "GET / HTTP/1.1\r\nA:\n\n", "GET / HTTP/1.1\r\nA: \r\nB:b\r\n\r\n",
	"GET / HTTP/1.1\r\n\rX", "GET / HTTP/1.1\r\nA: b\r\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: 3\r\n\r\nabcGET /x HTTP/1.1\r\n\r\n",
	"POST / HTTP/1.1\r\nContent-Length: 3 \r\n\r\nabc", "POST / HTTP/1.1\r\nContent-Length:\t3\n\nabc", "POST / HTTP/1.1\r\nContent-Length: 3x\r\n\r\nabc",
	"POST / HTTP/1.1\r\nContent-Length: 1 2\r\n\r\nabcdefghijkl", "POST / HTTP/1.1\r\nContent-Length:  \t1\t 2 \r\n\r\nabcdefghijkl", "POST / HTTP/1.1\r\nContent-Length: 0 3\r\n\r\nabcGET / HTTP/1.1\r\n\r\n",
	"POST / HTTP/1.1\r\nContent-Length: 3\r\nContent-Length: 1 2\r\n\r\nabcdefghijkl", "POST / HTTP/1.1\r\nContent-Length: 3\r\n 4\r\n\r\nabc", "POST / HTTP/1.1\r\nTransfer-Encoding: chu\r\n\tnked\r\n\r\n0\r\n\r\n",
	"POST / HTTP/1.1\r\nContent-Length: \r\n\r\nabc", "POST / HTTP/1.1\r\nContent-Length: 3\rX\n\r\nabc", "POST / HTTP/1.1\r\nContent-Length: 3\r\nContent-Length: 3\r\n\r\nabc",
	"POST / HTTP/1.1\r\nContent-Length: 3\r\nContent-Length: 4\r\n\r\nabcd", "POST / HTTP/1.1\r\nContent-Length: 99999999999999999999\r\n\r\nabcd",
	"POST /p HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\nGET / HTTP/1.0\r\n\r\n",
	"POST /q HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n4\r\n", "POST / HTTP/1.1\r\nTransfer-Encoding: gzip, chunked\r\n\r\n1\r\na\r\n0\r\n\r\n",
	"POST / HTTP/1.1\r\nTransfer-Encoding: gzip\r\n\r\n1\r\na\r\n0\r\n\r\n", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\nTrailer: X\r\n\r\n1\r\na\r\n0\r\nX: y\r\n\r\nGET / HTTP/1.1\r\n\r\n",
	"GET /%41%zz HTTP/1.1\r\n\r\n", "GET /a%2fb?x=%41 HTTP/1.1\r\n\r\n", "GET /a%4 HTTP/1.1\r\n\r\n", "FOO / HTTP/1.1\r\n\r\n", " / HTTP/1.1\r\n\r\n", "GET / HTTP/3.0\r\n\r\n", "GET / HTTP/1.1X\r\n\r\n",
	"GET / HTTP/1.0\r\n\r\nGET / HTTP/1.1\r\n\r\n", "GET / HTTP/1.0\r\nConnection: keep-alive\r\n\r\nGET / HTTP/1.1\r\n\r\n",
	"GET / HTTP/1.1\r\nConnection: close\r\n\r\nGET / HTTP/1.1\r\n\r\n", "GET / HTTP/1.1\r\nUpgrade: http/1.0\r\nConnection: upgrade\r\n\r\nGET /z HTTP/1.1\r\n\r\n",
	"HEAD / HTTP/1.1\r\n\r\nHEAD /x HTTP/1.1\r\n\r\n", "\r\nGET / HTTP/1.1\r\n\r\n", "GET / HTTP/1.1\r\nContent-Encoding: a,b , ,c\r\n\r\n", "GET /a b HTTP/1.1\r\n\r\n", "GET ?a=b HTTP/1.1\r\n\r\n",
	"TRACE / HTTP/1.1\r\nA: b\r\n\r\nOPTIONS / HTTP/1.1\r\n\r\n",
}

func main() {
	Main("C01", "a byte stream and a delivery of it, compared to whole delivery; distinct by both", func(r *Run) {
		g := r.Rng("streams")
		r.Step("tricky streams")
		for _, s := range tricky {
			var ds []delivery
			for i := 1; i < len(s); i++ {
				ds = append(ds, delivery{Name: "one cut", Cuts: []int{i}})
			}
			for i := 1; i <= 20; i++ {
				ds = append(ds, delivery{Name: "small buffer", Buffer: i}, delivery{Name: "equal parts", One: i, WithEnd: i%2 == 0})
			}
			if r.Thorough {
				for i := 1; i < len(s); i++ {
					for j := 1; i+j < len(s); j++ {
						ds = append(ds, delivery{Name: "two cuts", Cuts: []int{i, j}})
					}
				}
			}
			ds = append(ds, deliveries(g, len(s))...)
			for _, fab := range []string{"simple", "inbuilt"} {
				check(r, []byte(s), ds, fab)
			}
		}
		for i := 0; i < r.N(2500, 90000); i++ {
			r.Step("stream %d", i)
			var stream []byte
			o := Gen{Protos: []string{"HTTP/1.1", "HTTP/1.1", "HTTP/1.1", "HTTP/1.0"}, Chunked: 50, Both: true, KeepAlive: Chance(g, 80), BodyMax: Pick(g, []int{30, 300, 6000})}
			o.Large = i%100 < 2
			for n := 1 + g.Intn(4); n > 0; n-- {
				if Chance(g, 10) {
					o.Extra = [][2]string{{"Upgrade", Pick(g, []string{"http/1.0", "websocket", "h2c, http/1.1", "HTTP/1.1"})}}
				}
				stream = append(stream, o.Next(g).Wire...)
				o.Extra = nil
			}
			kind := "valid"
			if i%2 == 1 {
				kind = "mutated"
				stream = mutate(g, stream)
				if len(stream) == 0 {
					continue
				}
			}
			r.Count(kind, 1)
			check(r, stream, deliveries(g, len(stream)), Pick(g, []string{"simple", "simple", "inbuilt"}))
		}
		// every cut of short generated pipelines
		for i := 0; i < r.N(60, 1500); i++ {
			r.Step("all cuts %d", i)
			o := Gen{Chunked: 50, Both: true, KeepAlive: true, BodyMax: 10, MaxHdrs: 2}
			if i%6 == 0 {
				o.Extra = [][2]string{{Word(g, Alnum, 60, 90), Word(g, Alnum, 100, 200)}}
			}
			stream := append(o.Next(g).Wire, o.Next(g).Wire...)
			if len(stream) > 600 {
				continue
			}
			var ds []delivery
			for k := 1; k < len(stream); k++ {
				ds = append(ds, delivery{Name: "one cut", Cuts: []int{k}})
			}
			check(r, stream, ds, "simple")
		}
		_ = io.EOF
		r.Floor("deliveries", 20000)
		r.Floor("requests_seen", 2500)
		r.Floor("mutated", 1000)
	})
}
