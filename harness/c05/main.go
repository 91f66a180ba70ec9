//go:build go1.22

// Monitor of C05: requests carry unique ids; the event log must show each of them handled once and answered
// once, in order, whatever the handlers do with the bodies and however the bytes arrive.
package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	nethttp "net/http"
	"strings"
	"time"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/proto"
	"github.com/indigo-web/indigo/http/serve"
	"github.com/indigo-web/indigo/http/status"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
	. "github.com/indigo-web/indigo/internal/zzverif/vsrv"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/inbuilt/middleware"
)

var reading = []string{"none", "none", "partial1", "partial3", "partial50", "one-piece", "bytes", "string", "callback", "retrieve", "read7", "readall", "abort"}
var answers = []string{"id", "id", "stream", "sized", "nil", "error", "panic", "empty", "nocontent", "big"}

func handler(log *[]string) func(*http.Request) *http.Response {
	return func(req *http.Request) *http.Response {
		id := strings.Clone(req.Headers.Value("X-Id"))
		*log = append(*log, id)
		switch mode := req.Headers.Value("X-Read"); mode {
		case "abort":
			_ = req.Body.Callback(func([]byte) error { return errors.New("enough") })
		default:
			_, _ = ReadBody(req, mode)
		}
		resp := req.Respond().Header("X-Id", id)
		switch req.Headers.Value("X-Answer") {
		case "id":
			return resp.String("answer to " + id)
		case "stream":
			if req.Proto == proto.HTTP10 {
				return resp.String("answer to " + id)
			}
			return resp.Attachment(strings.NewReader("answer to "+id), -1)
		case "sized":
			s := "answer to " + id
			return resp.Attachment(strings.NewReader(s), len(s))
		case "big":
			return resp.Bytes(bytes.Repeat([]byte("answer "), 3000))
		case "error":
			return resp.Error(status.ErrForbidden)
		case "panic":
			panic("handler " + id)
		case "nocontent":
			return resp.Code(status.NoContent)
		case "nil":
			return nil
		}
		return resp
	}
}

func makeRouter(log *[]string, kind string) router.Router {
	h := handler(log)
	if kind == "simple" {
		return Router{Req: func(q *http.Request) (resp *http.Response) {
			defer func() {
				if recover() != nil {
					resp = http.Code(q, 500)
				}
			}()
			return h(q)
		}}
	}
	return inbuilt.New().Use(middleware.Recover).Get("/static", h).Post("/static", h).Get("/d/{x}", h).Post("/d/{x}", h).Catch("/", h).Initialize()
}

type item struct {
	id, method, answer, path string
	wire                     []byte
	upgrade                  bool
}

func genItem(g *rand.Rand, id string) item {
	it := item{id: id, answer: Pick(g, answers)}
	it.path = Pick(g, []string{"/", "/static", "/d/1", "/x/y"})
	o := Gen{Both: true, Path: it.path, Methods: []string{"GET", "POST", "POST", "PUT", "HEAD", "DELETE", "PATCH"}, Protos: []string{"HTTP/1.1", "HTTP/1.1", "HTTP/1.0"},
		KeepAlive: true, Chunked: 50, MaxHdrs: 3, BodyMax: Pick(g, []int{10, 100, 9000})}
	o.Large = g.Intn(300) == 0
	o.Extra = [][2]string{{"X-Id", id}, {"X-Read", Pick(g, reading)}, {"X-Answer", it.answer}}
	if Chance(g, 8) {
		o.Extra = append(o.Extra, [2]string{"Upgrade", "HTTP/1.1"})
	}
	if it.path == "/static" || it.path == "/d/1" {
		o.Methods = []string{"GET", "POST", "HEAD"}
	}
	q := o.Next(g)
	if len(q.Body) > 0 && !q.Chunked && Chance(g, 60) {
		// the body is made of requests that must never be seen
		fake := []byte("GET /static HTTP/1.1\r\nX-Id: fake\r\n\r\n")
		b := q.Wire[q.HeadLen:]
		for i := range b {
			b[i] = fake[i%len(fake)]
		}
	}
	it.method, it.wire = q.Method, q.Wire
	for _, h := range q.Headers {
		if h[0] == "Upgrade" {
			it.upgrade = true
		}
	}
	return it
}

func pipeline(r *Run, g *rand.Rand, i int) {
	r.Step("pipeline %d", i)
	n := 1 + g.Intn(Pick(g, []int{3, 6, 25}))
	var items []item
	var stream []byte
	var methods, ids []string
	var ends []int
	for k := 0; k < n; k++ {
		it := genItem(g, fmt.Sprintf("%d-%d-%s", i, k, Word(g, Alnum, 3, 6)))
		items = append(items, it)
		stream = append(stream, it.wire...)
		methods, ids = append(methods, it.method), append(ids, it.id)
		ends = append(ends, len(stream))
	}
	kind := Pick(g, []string{"simple", "inbuilt"})
	conn := &Conn{In: stream}
	delivery := Pick(g, []string{"whole", "cuts", "requests", "buffer"})
	cfg := config.Default()
	c := map[string]any{"stream": Q(stream), "router": kind, "delivery": delivery}
	switch delivery {
	case "cuts":
		conn.Cuts = RandomCuts(g, len(stream))
	case "buffer":
		cfg.TCP.ReadBufferSize = 1 + g.Intn(100)
	case "requests":
		// one request per delivery, sent only when all before are answered: nothing may be held back
		prev := 0
		for _, e := range ends {
			conn.Cuts = append(conn.Cuts, e-prev)
			prev = e
		}
		conn.OnRead = func() {
			sent := 0
			for _, e := range ends {
				if e <= conn.Pos() {
					sent++
				}
			}
			if sent == 0 || (sent < len(ends) && conn.Pos() != ends[sent-1]) {
				return // in the middle of a request
			}
			final := 0
			rs, _ := ParseAll(conn.Out.Bytes(), methods)
			for _, p := range rs {
				if p.Code >= 200 {
					final++
				}
			}
			r.Count("waits_checked", 1)
			if final != sent {
				r.Violate("held-back", c, "after %d complete requests the server waits for input with %d of the responses written", sent, final)
				panic(Stop{Kind: "held-back", Detail: "response not written"})
			}
		}
	}
	var log []string
	if !Serve(r, "serve", c, cfg, conn, makeRouter(&log, kind)) {
		return
	}
	r.Eval(kind + delivery + string(stream))
	r.Count("requests", int64(n))
	r.Count("pipelines", 1)
	if strings.Join(log, ",") != strings.Join(ids, ",") {
		r.Violate("exactly-once", c, "handled %q, sent %q", log, ids)
		return
	}
	rs, err := ParseAll(conn.Out.Bytes(), methods)
	if err != nil {
		r.Violate("responses", c, "malformed output: %v\n%s", err, Q(conn.Out.Bytes()))
		return
	}
	var final []Resp
	for _, p := range rs {
		if p.Code >= 200 {
			final = append(final, p)
		} else if p.Code != 101 {
			r.Violate("interim", c, "unexpected interim response %d", p.Code)
		}
	}
	if len(final) != n {
		r.Violate("one-response-each", c, "%d final responses to %d requests", len(final), n)
		return
	}
	for k, p := range final {
		it := items[k]
		switch it.answer {
		case "nil":
			if p.Code != 200 || len(p.Get("X-Id")) != 0 {
				r.Violate("answer", c, "response %d to an empty answer: %+v", k, p)
			}
			continue
		case "panic":
			if p.Code != 500 || len(p.Get("X-Id")) != 0 {
				r.Violate("answer", c, "response %d to a panic: %+v", k, p)
			}
			continue
		}
		if v := p.Get("X-Id"); len(v) != 1 || v[0] != it.id {
			r.Violate("order", c, "response %d carries id %q instead of %q", k, v, it.id)
			return
		}
		if it.method != "HEAD" && (it.answer == "id" || it.answer == "stream" || it.answer == "sized") && string(p.Body) != "answer to "+it.id {
			r.Violate("answer-body", c, "response %d to %s is %q", k, it.id, p.Body)
		}
		r.Count("matched", 1)
	}
	if conn.Pos() != len(stream) {
		r.Violate("bytes-left", c, "%d bytes were never read", len(stream)-conn.Pos())
	}
	r.Sample(delivery, c)
}

// sockets: the same over loopback, the client writing and reading concurrently at its own pace.
func sockets(r *Run, g *rand.Rand, i int) {
	r.Step("sockets %d", i)
	l, err := net.Listen("tcp4", "127.0.0.1:0")
	if err != nil {
		r.Inconclusive("cannot listen: %v", err)
		return
	}
	defer l.Close()
	n := 5 + g.Intn(40)
	var items []item
	for k := 0; k < n; k++ {
		items = append(items, genItem(g, fmt.Sprintf("s%d-%d", i, k)))
	}
	var log []string
	done := make(chan struct{})
	go func() {
		defer close(done)
		conn, err := l.Accept()
		if err != nil {
			return
		}
		serve.HTTP1(config.Default(), conn, encryption.Plain, makeRouter(&log, "inbuilt"))
		_ = conn.Close()
	}()
	client, err := net.Dial("tcp4", l.Addr().String())
	if err != nil {
		r.Inconclusive("cannot dial: %v", err)
		return
	}
	defer client.Close()
	pause := Chance(g, 50)
	seed := g.Int63()
	go func() {
		g := rand.New(rand.NewSource(seed))
		for _, it := range items {
			for w := it.wire; len(w) > 0; {
				k := len(w)
				if pause {
					k = 1 + g.Intn(len(w))
				}
				if _, err := client.Write(w[:k]); err != nil {
					return
				}
				w = w[k:]
				if pause && Chance(g, 20) {
					time.Sleep(time.Duration(g.Intn(300)) * time.Microsecond)
				}
			}
		}
		_ = client.(*net.TCPConn).CloseWrite()
	}()
	_ = client.SetReadDeadline(time.Now().Add(60 * time.Second))
	br := bufio.NewReader(client)
	c := map[string]any{"requests": n, "pause": pause, "index": i}
	for k, it := range items {
		var resp *nethttp.Response
		for {
			resp, err = nethttp.ReadResponse(br, &nethttp.Request{Method: it.method})
			if err != nil {
				r.Violate("socket-response", c, "response %d of %d (%s): %v", k, n, Q(it.wire), err)
				return
			}
			if resp.StatusCode != 101 {
				break
			}
		}
		if _, err = io.Copy(io.Discard, resp.Body); err != nil {
			r.Violate("socket-body", c, "response %d: %v", k, err)
			return
		}
		if it.answer != "nil" && it.answer != "panic" && resp.Header.Get("X-Id") != it.id {
			r.Violate("socket-order", c, "response %d carries id %q instead of %q", k, resp.Header.Get("X-Id"), it.id)
			return
		}
		r.Count("socket_responses", 1)
	}
	if rest, _ := io.ReadAll(br); len(rest) > 0 {
		r.Violate("socket-surplus", c, "surplus output %q", rest)
	}
	<-done
	if len(log) != n {
		r.Violate("socket-exactly-once", c, "%d requests handled of %d", len(log), n)
	}
	r.Eval(fmt.Sprint("socket", i, n, pause))
}

func main() {
	Main("C05", "pipelines of uniquely marked requests x delivery x handler reading behaviour; distinct by bytes, router and delivery", func(r *Run) {
		g := r.Rng("pipelines")
		for i := 0; i < r.N(6000, 200000); i++ {
			pipeline(r, g, i)
		}
		for i := 0; i < r.N(60, 1500); i++ {
			sockets(r, g, i)
		}
		r.Floor("requests", 20000)
		r.Floor("waits_checked", 2000)
		r.Floor("matched", 10000)
		r.Floor("socket_responses", 500)
	})
}
