//go:build go1.22

// Monitor of C02: generated requests with ground truth; what the handler observes must be what was sent.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"reflect"
	"strings"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/method"
	"github.com/indigo-web/indigo/http/proto"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
	. "github.com/indigo-web/indigo/internal/zzverif/vsrv"
)

func last(q Req, name string) (v string) {
	for _, h := range q.Headers {
		if strings.EqualFold(h[0], name) {
			v = h[1]
		}
	}
	return v
}

func tokens(q Req, name string) (toks []string) {
	for _, h := range q.Headers {
		if strings.EqualFold(h[0], name) {
			for _, t := range strings.Split(h[1], ",") {
				if t = strings.TrimSpace(t); t != "" {
					toks = append(toks, t)
				}
			}
		}
	}
	return toks
}

// compare judges one observation.
func compare(r *Run, c any, q Req, s Snap) {
	bad := func(what string, got, want any) {
		r.Violate(what, c, "%s: the handler sees %q, sent was %q", what, fmt.Sprint(got), fmt.Sprint(want))
	}
	if s.Method != q.Method {
		bad("method", s.Method, q.Method)
	}
	if s.Path != q.Path {
		bad("path", s.Path, q.Path)
	}
	if s.Query != q.Query {
		bad("query", s.Query, q.Query)
	}
	if s.Proto != q.Proto {
		bad("protocol", s.Proto, q.Proto)
	}
	if !reflect.DeepEqual(s.Headers, q.Headers) && len(s.Headers)+len(q.Headers) > 0 {
		bad("headers", s.Headers, q.Headers)
	}
	if s.Length != q.Length {
		bad("content-length", s.Length, q.Length)
	}
	if s.Type != last(q, "content-type") {
		bad("content-type", s.Type, last(q, "content-type"))
	}
	if s.Connection != last(q, "connection") {
		bad("connection", s.Connection, last(q, "connection"))
	}
	if s.Chunked != q.Chunked {
		bad("chunked", s.Chunked, q.Chunked)
	}
	if want := tokens(q, "transfer-encoding"); strings.Join(s.Transfer, "|") != strings.Join(want, "|") {
		bad("transfer-encodings", s.Transfer, want)
	}
	if want := last(q, "trailer") != ""; s.Trailer != want {
		bad("trailer", s.Trailer, want)
	}
	if want := len(tokens(q, "transfer-encoding"))+len(tokens(q, "content-encoding")) == 0; s.Identity != want {
		bad("identity", s.Identity, want)
	}
	if want := tokens(q, "content-encoding"); strings.Join(s.Content, "|") != strings.Join(want, "|") {
		bad("content-encodings", s.Content, want)
	}
	if s.Upgrade != "" {
		bad("upgrade", s.Upgrade, "")
	}
	if s.Remote != "10.0.0.2:12345" {
		bad("remote", s.Remote, "10.0.0.2:12345")
	}
	if s.BodyErr != "" {
		bad("body-error/"+s.Mode, s.BodyErr, "")
	} else if !bytes.Equal(s.Body, q.Body) {
		bad("body/"+s.Mode, s.Body, q.Body)
	}
}

func lookups(r *Run, c any, q Req, req *http.Request) {
	seen := map[string]bool{}
	for _, h := range q.Headers {
		low := strings.ToLower(h[0])
		if seen[low] {
			continue
		}
		seen[low] = true
		var want []string
		for _, o := range q.Headers {
			if strings.EqualFold(o[0], h[0]) {
				want = append(want, o[1])
			}
		}
		for _, spelling := range []string{h[0], low, strings.ToUpper(h[0])} {
			if got := req.Headers.Value(spelling); got != want[0] {
				r.Violate("lookup", c, "Headers.Value(%q) = %q, sent was %q", spelling, got, want)
			}
			if !req.Headers.Has(spelling) {
				r.Violate("lookup-has", c, "Headers.Has(%q) is false, sent was %q", spelling, want)
			}
			if got := req.Headers.Values(spelling); strings.Join(got, "\x00") != strings.Join(want, "\x00") {
				r.Violate("lookup-values", c, "Headers.Values(%q) = %q, sent was %q", spelling, got, want)
			}
		}
		if absent := h[0] + "x"; !hasName(q, absent) && (req.Headers.Has(absent) || req.Headers.Value(absent) != "") {
			r.Violate("lookup-absent", c, "Headers.Has(%q) is true", absent)
		}
	}
}

func hasName(q Req, name string) bool {
	for _, h := range q.Headers {
		if strings.EqualFold(h[0], name) {
			return true
		}
	}
	return false
}

var seenModes = map[string]bool{}

func one(r *Run, g *rand.Rand, o Gen, i int) {
	r.Step("request %d", i)
	q := o.Next(g)
	mode := Pick(g, BodyModes)
	c := map[string]any{"wire": Q(q.Wire), "mode": mode}
	// it makes no difference how many requests the connection has already seen
	var earlier []byte
	var earlierModes []string
	if Chance(g, 25) {
		for n := 1 + g.Intn(2); n > 0; n-- {
			body := Word(g, Alnum, 0, 40)
			frame := fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(body), body)
			if Chance(g, 40) {
				frame = fmt.Sprintf("Transfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n0\r\n\r\n", len(body), body)
				if body == "" {
					frame = "Transfer-Encoding: chunked\r\n\r\n0\r\n\r\n"
				}
			}
			earlier = append(earlier, "POST /earlier?e=1 HTTP/1.1\r\nX-Earlier: 1\r\nContent-Type: text/earlier\r\n"+frame...)
			earlierModes = append(earlierModes, Pick(g, []string{Pick(g, BodyModes), "partial1", "partial7"}))
		}
		r.Count("later_requests", 1)
		c["earlier"] = fmt.Sprintf("%s %v", Q(earlier), earlierModes)
	}
	conn := &Conn{In: append(earlier, q.Wire...)}
	cfg := config.Default()
	switch g.Intn(4) {
	case 0:
		conn.Cuts = RandomCuts(g, len(conn.In))
	case 1:
		cfg.TCP.ReadBufferSize = 1 + g.Intn(64)
	}
	calls := 0
	var snap Snap
	rt := Router{
		Req: func(req *http.Request) *http.Response {
			if len(earlierModes) > 0 {
				_, _ = ReadBody(req, earlierModes[0])
				earlierModes = earlierModes[1:]
				return http.String(req, "ok")
			}
			calls++
			snap = Take(req)
			lookups(r, c, q, req)
			if req.Method != method.Parse(q.Method) || (req.Proto != proto.HTTP10 && req.Proto != proto.HTTP11) {
				r.Violate("enum", c, "method %v protocol %v", req.Method, req.Proto)
			}
			body, err := ReadBody(req, mode)
			// nothing else of the request is affected by its body being read
			if after := Take(req); !reflect.DeepEqual(after, snap) {
				r.Violate("changed-by-reading", c, "after the body was read, the request is %+v; before, it was %+v", after, snap)
			}
			snap.Mode, snap.Body = mode, body
			if err != nil {
				snap.BodyErr = err.Error()
			}
			if err == nil {
				// once it's over, it's over
				if b, e := req.Body.Retrieve(); len(b) > 0 || e != io.EOF {
					r.Violate("body-after-end", c, "Retrieve after the end gives %q, %v", b, e)
				}
				if e := req.Body.Discard(); e != nil {
					r.Violate("discard-after-end", c, "Discard after the end gives %v", e)
				}
				if mode == "bytes" {
					if b, e := req.Body.Bytes(); e != nil || !bytes.Equal(b, q.Body) {
						r.Violate("bytes-again", c, "the second Bytes gives %q, %v", b, e)
					}
					if s, e := req.Body.String(); e != nil || s != string(q.Body) {
						r.Violate("string-again", c, "String after Bytes gives %q, %v", s, e)
					}
				}
			}
			return http.String(req, "ok")
		},
		Err: func(req *http.Request, err error) *http.Response {
			if calls == 0 {
				snap.BodyErr = err.Error()
			}
			return http.Error(req, err)
		},
	}
	if !Serve(r, "serve", c, cfg, conn, rt) {
		return
	}
	r.Eval(mode + string(q.Wire))
	if calls != 1 {
		r.Violate("not-served", c, "a valid request was handed to the handler %d times; answered with %q (%s)", calls, conn.Out.String(), snap.BodyErr)
		return
	}
	compare(r, c, q, snap)
	r.Count("requests", 1)
	if len(q.Body) > 0 {
		r.Count("bodies", 1)
		if q.Chunked {
			r.Count("chunked_bodies", 1)
		}
		seenModes[fmt.Sprint(mode, q.Chunked)] = true
	}
	r.Count("headers", int64(len(q.Headers)))
	r.Sample("request", c)
}

// big bodies and big pieces, JSON and callback errors.
var errReset = errors.New("connection reset by peer")

func bodies(r *Run, g *rand.Rand) {
	for i := 0; i < r.N(150, 3000); i++ {
		r.Step("big body %d", i)
		size := Pick(g, []int{0, 1, 4095, 4096, 4097, 8191, 8192, 8193, 20000, 65536, 131072, 300000}) + g.Intn(3)
		if i%10 == 3 {
			size = g.Intn(Pick(g, []int{1, 2, 5}) << 20)
		}
		body := Bytes(g, size)
		chunked := Chance(g, 50)
		var wire []byte
		if chunked {
			wire = append([]byte("POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n"), Chunk(g, body)...)
		} else {
			wire = append([]byte(fmt.Sprintf("POST / HTTP/1.1\r\nContent-Length: %d\r\n\r\n", size)), body...)
		}
		mode := BodyModes[(i/10+i)%len(BodyModes)]
		c := map[string]any{"size": size, "chunked": chunked, "mode": mode, "seed_index": i}
		conn := &Conn{In: wire, One: Pick(g, []int{0, 0, 1000, 4096, 5000})}
		calls := 0
		ok := Serve(r, "big-body", c, config.Default(), conn, Router{Req: func(req *http.Request) *http.Response {
			calls++
			got, err := ReadBody(req, mode)
			if err != nil || !bytes.Equal(got, body) {
				at := 0
				for at < len(got) && at < len(body) && got[at] == body[at] {
					at++
				}
				r.Violate("big-body/"+mode, c, "%d bytes of %d, equal up to %d, error %v", len(got), size, at, err)
			}
			return http.Respond(req)
		}})
		r.Eval(fmt.Sprint("big", size, chunked, mode, i))
		if ok && calls != 1 {
			r.Violate("big-body-served", c, "handler called %d times: %q", calls, Q(conn.Out.String()))
		}
		r.Count("big_bodies", 1)
	}
	type model struct {
		A int
		B string
		C []int
	}
	for i := 0; i < r.N(500, 20000); i++ {
		r.Step("json %d", i)
		m := model{g.Intn(1e6), Word(g, Alnum+" \"\\\n\xc3\xa9", 0, 30), []int{g.Intn(5), g.Intn(7)}}
		m.B = strings.ToValidUTF8(m.B, "?")
		data, _ := json.Marshal(m)
		ct := Pick(g, []string{"", "application/json", "text/plain"})
		head := "POST / HTTP/1.1\r\n"
		if ct != "" {
			head += "Content-Type: " + ct + "\r\n"
		}
		wire := []byte(fmt.Sprintf("%sContent-Length: %d\r\n\r\n%s", head, len(data), data))
		if Chance(g, 40) {
			wire = append([]byte(head+"Transfer-Encoding: chunked\r\n\r\n"), Chunk(g, data)...)
		}
		c := map[string]any{"wire": Q(wire)}
		conn := &Conn{In: wire, Cuts: RandomCuts(g, len(wire))}
		Serve(r, "json", c, config.Default(), conn, Router{Req: func(req *http.Request) *http.Response {
			var got model
			err := req.JSON(&got)
			switch {
			case ct == "text/plain":
				if err == nil || !reflect.DeepEqual(got, model{}) {
					r.Violate("json-type", c, "a text/plain body was taken as JSON: %+v, %v", got, err)
				}
			case err != nil || !reflect.DeepEqual(got, m):
				r.Violate("json", c, "JSON gives %+v, %v; want %+v", got, err, m)
			}
			return http.Respond(req)
		}})
		r.Eval(string(wire))
		r.Count("json", 1)
	}
	// the error of a callback ends the reading and is passed on; truncated bodies are errors for every interface
	for i := 0; i < r.N(1500, 30000); i++ {
		r.Step("callback error %d", i)
		body := Bytes(g, 1+g.Intn(60))
		chunked := Chance(g, 50)
		var wire []byte
		if chunked {
			wire = append([]byte("PUT / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n"), Chunk(g, body)...)
		} else {
			wire = append([]byte(fmt.Sprintf("PUT / HTTP/1.1\r\nContent-Length: %d\r\n\r\n", len(body))), body...)
		}
		head := bytes.Index(wire, []byte("\r\n\r\n")) + 4
		c := map[string]any{"wire": Q(wire)}
		if Chance(g, 50) {
			mine := fmt.Errorf("own error")
			stopAt := g.Intn(3)
			conn := &Conn{In: wire, One: 1 + g.Intn(9)}
			Serve(r, "callback-error", c, config.Default(), conn, Router{Req: func(req *http.Request) *http.Response {
				n := 0
				err := req.Body.Callback(func(b []byte) error {
					if n++; n > stopAt {
						return mine
					}
					return nil
				})
				if n > stopAt && err != mine {
					r.Violate("callback-error", c, "the callback's error was replaced by %v", err)
				}
				if n > stopAt+1 {
					r.Violate("callback-continued", c, "the callback was called again after its error")
				}
				return http.Respond(req)
			}})
			r.Count("callback_errors", 1)
		} else {
			cut := head + g.Intn(len(wire)-head)
			mode := Pick(g, BodyModes)
			conn := &Conn{In: wire[:cut], One: g.Intn(5)}
			if Chance(g, 50) {
				conn.End = Pick(g, []error{os.ErrDeadlineExceeded, net.ErrClosed, errReset})
			}
			Serve(r, "truncated", c, config.Default(), conn, Router{Req: func(req *http.Request) *http.Response {
				got, err := ReadBody(req, mode)
				if err == nil {
					r.Violate("truncated-body/"+mode, c, "a body cut after %d bytes is accepted as %q", cut-head, got)
				}
				if err != nil && conn.End != nil && !errors.Is(err, conn.End) {
					r.Violate("truncated-error/"+mode, c, "the connection failed with %v, the body with %v", conn.End, err)
				}
				if err != nil && mode != "bytes" && mode != "string" && !bytes.HasPrefix(body, got) {
					r.Violate("truncated-content/"+mode, c, "wrong bytes before the cut: %q", got)
				}
				return http.Respond(req)
			}})
			r.Count("truncated", 1)
		}
		r.Eval(string(wire) + "cb")
	}
}

func main() {
	Main("C02", "generated requests and body-reading interfaces; distinct by wire bytes and interface", func(r *Run) {
		g := r.Rng("requests")
		n := r.N(40000, 1200000)
		protos := []string{"HTTP/1.1", "HTTP/1.1", "HTTP/1.0"}
		for i := 0; i < n; i++ {
			o := Gen{Protos: protos, Chunked: 50}
			o.Large = i%200 == 5
			switch i % 10 {
			case 7:
				o.MaxHdrs = 24
			case 8:
				o.BodyMax = 9000
			case 9:
				o.NoBody, o.MaxHdrs = true, 1
			}
			one(r, g, o, i)
		}
		// every byte in every position kind
		for b := 0; b < 256; b++ {
			for _, up := range []bool{true, false} {
				esc := fmt.Sprintf("%%%02X", b)
				if !up {
					esc = strings.ToLower(esc)
				}
				q := Req{Method: "GET", Path: "/a" + string([]byte{byte(b)}) + "b", Proto: "HTTP/1.1",
					Headers: [][2]string{{"Host", "x"}}, Wire: []byte("GET /a" + esc + "b HTTP/1.1\r\nHost: x\r\n\r\n")}
				fixed(r, q)
			}
			if b > ' ' && b != 0x7f {
				v := "a" + string([]byte{byte(b)}) + "b"
				fixed(r, Req{Method: "GET", Path: "/", Proto: "HTTP/1.1", Headers: [][2]string{{"X", v}},
					Wire: []byte("GET / HTTP/1.1\r\nX: " + v + "\r\n\r\n")})
			}
			if strings.IndexByte("!#$%&'*+-.^_`|~"+Alnum, byte(b)) != -1 {
				for n := 0; n < 20; n++ {
					v := strings.Repeat("q", n) + string([]byte{byte(b)})
					fixed(r, Req{Method: "GET", Path: "/", Proto: "HTTP/1.1", Headers: [][2]string{{v, "v"}},
						Wire: []byte("GET / HTTP/1.1\r\n" + v + ": v\r\n\r\n")})
				}
			}
		}
		bodies(r, r.Rng("bodies"))
		r.Count("body_interfaces_times_framings", int64(len(seenModes)))
		r.Floor("body_interfaces_times_framings", int64(2*len(BodyModes)))
		r.Floor("requests", 30000)
		r.Floor("chunked_bodies", 5000)
		r.Floor("headers", 80000)
		r.Floor("truncated", 300)
		r.Floor("later_requests", 5000)
	})
}

func fixed(r *Run, q Req) {
	c := map[string]any{"wire": Q(q.Wire)}
	conn := &Conn{In: q.Wire}
	calls := 0
	var snap Snap
	ok := Serve(r, "serve", c, config.Default(), conn, Router{Req: func(req *http.Request) *http.Response {
		calls++
		snap = Take(req)
		snap.Body, _ = ReadBody(req, "bytes")
		return http.Respond(req)
	}})
	r.Eval(string(q.Wire))
	if !ok {
		return
	}
	if calls != 1 {
		r.Violate("not-served", c, "handler called %d times; answered with %q", calls, conn.Out.String())
		return
	}
	compare(r, c, q, snap)
	r.Count("requests", 1)
}
