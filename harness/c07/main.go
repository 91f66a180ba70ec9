//go:build go1.22

// Monitor of C07: hostile byte streams against a served connection. Crashes, busy loops and anything but well-formed
// responses are violations; for enumerated malformation classes the code, the single response and the end of the
// connection are checked too.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"strings"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/headers"
	"github.com/indigo-web/indigo/http/status"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
	. "github.com/indigo-web/indigo/internal/zzverif/vsrv"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/inbuilt/middleware"
)

type rec struct {
	handled []string
	methods []string
	fatal   []error
	closed  int
}

type wrap struct {
	e     *rec
	inner router.Router
}

func (w wrap) OnRequest(q *http.Request) *http.Response {
	w.e.methods = append(w.e.methods, q.Method.String())
	return w.inner.OnRequest(q)
}

func (w wrap) OnError(q *http.Request, err error) *http.Response {
	if errors.Is(err, status.ErrCloseConnection) {
		w.e.closed++
	} else {
		w.e.methods = append(w.e.methods, q.Method.String())
		w.e.fatal = append(w.e.fatal, err)
	}
	return w.inner.OnError(q, err)
}

// handler uses everything of the request that depends on the client's bytes.
func handler(e *rec, g *rand.Rand) func(*http.Request) *http.Response {
	return func(q *http.Request) *http.Response {
		e.handled = append(e.handled, strings.Clone(q.Path))
		for i := g.Intn(4); i > 0; i-- {
			switch g.Intn(8) {
			case 0:
				_, _ = q.Query.Unwrap()
			case 1:
				_, _ = q.Query.Get("a")
			case 2:
				_, _ = q.Cookies()
			case 3:
				_ = http.Escape(q.Path)
			case 4:
				var v any
				_ = q.JSON(&v)
			case 5:
				_, _ = ReadBody(q, Pick(g, BodyModes))
			case 6:
				for _, h := range q.Headers.Unwrap() {
					_ = headers.ValueOf(h.Value)
					_ = headers.ParamOf(h.Value, "q")
					_ = headers.QualityOf(h.Value)
				}
			case 7:
				_, _ = ReadBody(q, "partial3")
			}
		}
		resp := q.Respond()
		switch g.Intn(6) {
		case 0:
			return nil
		case 1:
			return resp.String("ok")
		case 2:
			return resp.Attachment(strings.NewReader("stream"), Pick(g, []int{-1, 6}))
		case 3:
			return resp.Error(errors.New("oops"))
		case 4:
			return resp.Bytes([]byte(q.Path))
		}
		return resp
	}
}

// explain answers an error by more than its code.
func explain(g *rand.Rand, q *http.Request, err error) *http.Response {
	resp := http.Error(q, err)
	switch g.Intn(4) {
	case 0:
		resp.String("an error: " + err.Error())
	case 1:
		resp.Header("X-Error", "1").JSON(map[string]string{"error": err.Error()})
	case 2:
		resp.Attachment(strings.NewReader("streamed error"), Pick(g, []int{-1, 14}))
	}
	return resp
}

func makeRouter(e *rec, g *rand.Rand, kind string) router.Router {
	h := handler(e, g)
	var inner router.Router
	switch kind {
	case "simple":
		inner = Router{Req: h}
		if Chance(g, 50) {
			inner = Router{Req: h, Err: func(q *http.Request, err error) *http.Response { return explain(g, q, err) }}
		}
	case "static":
		inner = inbuilt.New().Use(middleware.Recover).Get("/", h).Post("/", h).Get("/a/b", h).Catch("/a", h).Initialize()
	default:
		inner = inbuilt.New().Get("/", h).Post("/", h).Get("/{x}", h).Put("/{x}/y/{z}", h).Get("/a/{b}", h).Alias("/q", "/a/b").
			RouteError(func(q *http.Request) *http.Response { return explain(g, q, q.Env.Error) }).Initialize()
	}
	return wrap{e, inner}
}

var routerKinds = []string{"simple", "static", "dynamic"}

// throw serves the stream and checks what holds for any input.
func throw(r *Run, g *rand.Rand, stream []byte, cfg config.Config, kind string, c map[string]any) (*rec, *Conn, []Resp, bool) {
	conn := &Conn{In: stream, LogEvents: true, MaxOut: 8<<20 + 40*len(stream)}
	switch g.Intn(4) {
	case 0:
		conn.One = 1
	case 1:
		conn.Cuts = RandomCuts(g, len(stream))
	}
	conn.WithEnd = Chance(g, 20)
	if Chance(g, 20) {
		conn.End = errors.New("connection reset")
	}
	c["stream"], c["router"] = Q(stream), kind
	e := &rec{}
	if !Serve(r, "crash", c, cfg, conn, makeRouter(e, g, kind)) {
		return nil, nil, nil, false
	}
	rs, err := ParseAll(conn.Out.Bytes(), e.methods)
	if err != nil {
		// a body delimited by the end of the connection must be the last one, anything else is malformed
		r.Violate("output", c, "not a sequence of well-formed responses: %v\n%s", err, Q(conn.Out.Bytes()))
		return nil, nil, nil, false
	}
	if len(e.fatal) > 1 {
		r.Violate("errors", c, "several fatal errors on one connection: %v", e.fatal)
	}
	r.Count("responses", int64(len(rs)))
	r.Count("handled", int64(len(e.handled)))
	return e, conn, rs, true
}

func smallConfig(g *rand.Rand) config.Config {
	cfg := config.Default()
	if Chance(g, 40) {
		cfg.URL.BufferSize.Default, cfg.URL.BufferSize.Maximal = 1+g.Intn(20), 20+g.Intn(60)
		cfg.Headers.KeySpace.Default, cfg.Headers.KeySpace.Maximal = 1+g.Intn(10), 10+g.Intn(80)
		cfg.Headers.ValueSpace.Default, cfg.Headers.ValueSpace.Maximal = 1+g.Intn(10), 10+g.Intn(80)
		cfg.Headers.Number.Default, cfg.Headers.Number.Maximal = g.Intn(3), 1+g.Intn(8)
		cfg.Headers.MaxKeyLength, cfg.Headers.MaxValueLength = 1+g.Intn(30), 1+g.Intn(40)
		cfg.Headers.MaxEncodingTokens = g.Intn(4)
		cfg.Headers.CookiesPreAllocate, cfg.URL.Query.PreAlloc = g.Intn(3), g.Intn(3)
		cfg.Body.MaxSize, cfg.Body.MaxChunkSize = uint(g.Intn(50)), int64(g.Intn(30))
		cfg.HTTP.ResponseBuffSize, cfg.HTTP.FileBuffSize = g.Intn(30), 16+g.Intn(30)
		cfg.TCP.ReadBufferSize = 1 + g.Intn(30)
	}
	return cfg
}

var dictionary = []string{"\r\n", "\n", "\r", " ", ":", "\t", "%", "%0", "%00", "%zz", "%0A", "?", "&", "=", "+", "/", "//", "..", "\x00", "\x7f", "\xff", ";", ",",
	"GET ", "HEAD ", "TRACE / HTTP/1.1\r\n", "CONNECT", " HTTP/1.1", " HTTP/1.0", " HTTP/2.0", "HTTP/", "1.1", "0.9", "\r\n\r\n", "Content-Length: ", "Content-Length: 5\r\n",
	"Content-Length: 18446744073709551616\r\n", "Content-Length: 9223372036854775807\r\n", "Transfer-Encoding: chunked\r\n", "Transfer-Encoding: ", "Connection: close\r\n",
	"Connection: keep-alive\r\n", "Upgrade: HTTP/1.1\r\n", "Upgrade: h2c\r\n", "Upgrade: HTTP/1.0, x\r\n", "Trailer: x\r\n", "Cookie: a=b; c\r\n", "Cookie: \r\n", "Cookie: =\r\n", "Content-Type: application/json\r\n",
	"Content-Encoding: gzip, br\r\n", "Host: \r\n", "A:\r\n", "A:\n", ":\r\n", "0\r\n\r\n", "ffffffffffffffff\r\n", "5\r\nhello\r\n", "-1\r\n", "*", "OPTIONS * HTTP/1.1\r\n\r\n", "a=%", "{", "[1,2", "null"}

func mutate(g *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	for n := g.Intn(Pick(g, []int{2, 4, 12})); n > 0; n-- {
		i, j := 0, 0
		if len(b) > 0 {
			i, j = g.Intn(len(b)), g.Intn(len(b))
		}
		if i > j {
			i, j = j, i
		}
		switch g.Intn(8) {
		case 0:
			if len(b) > 0 {
				b[i] = byte(g.Intn(256))
			}
		case 1:
			if len(b) > 0 {
				b[i] ^= 1 << g.Intn(8)
			}
		case 2:
			if j-i > 40 {
				j = i + g.Intn(40)
			}
			b = append(b[:i], b[j:]...)
		case 3:
			b = append(b[:i], append([]byte(Pick(g, dictionary)), b[i:]...)...)
		case 4:
			b = append(b[:i], append([]byte(Pick(g, dictionary)), b[i:]...)...)
		case 5:
			b = append(b[:j], append(append([]byte(nil), b[i:j]...), b[j:]...)...)
		case 6:
			b = b[:j]
		case 7:
			if len(b) > 0 {
				d := Pick(g, dictionary)
				copy(b[i:], d)
			}
		}
		if len(b) > 4096 {
			b = b[:4096]
		}
	}
	return b
}

func fuzz(r *Run, g *rand.Rand, i int) {
	r.Step("fuzz %d", i)
	o := Gen{Protos: []string{"HTTP/1.1", "HTTP/1.0", "HTTP/1.1"}, Chunked: 50, BodyMax: 60, MaxHdrs: 4}
	if Chance(g, 40) {
		o.Path = Pick(g, []string{"/", "/a", "/a/b", "/x/y/z", "/q"})
	}
	var b []byte
	for n := 1 + g.Intn(3); n > 0; n-- {
		b = append(b, o.Next(g).Wire...)
	}
	b = mutate(g, b)
	c := map[string]any{}
	if _, _, _, ok := throw(r, g, b, smallConfig(g), Pick(g, routerKinds), c); ok {
		r.Eval("fuzz" + string(b))
	}
}

// short strings of hostile bytes at every interesting place
func short(r *Run, g *rand.Rand) {
	n := r.N(4, 6)
	for _, p := range []struct{ pre, alphabet, post string }{
		{"", "GE T/\r\n", ""},
		{"GET ", "/ %?a\r\n", " HTTP/1.1\r\n\r\n"},
		{"GET /", " H1./\r\n", "\r\n\r\n"},
		{"GET / HTTP/1.1\r\n", "a: \t\r\n", ""},
		{"GET / HTTP/1.1\r\nA", "a: \t\r\n", "\r\n\r\n"},
		{"GET / HTTP/1.1\r\nContent-Length:", "05 -x\r\n", "\r\n\r\n12345"},
		{"POST / HTTP/1.1\r\nTransfer-Encoding:", "c, k\r\n", "\r\n\r\n0\r\n\r\n"},
		{"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n", "03a;\r\n", "\r\n\r\n"},
		{"GET / HTTP/1.1\r\nCookie:", "a=; \"\r\n", "\r\n\r\n"},
		{"GET /?", "a=&+%1", " HTTP/1.1\r\n\r\n"},
		{"GET / HTTP/1.1\r\nUpgrade:", "h2c, \r\n", "\r\n\r\n"},
	} {
		Strings(p.alphabet, n, func(s string) {
			r.Step("short %q", s)
			if _, _, _, ok := throw(r, g, []byte(p.pre+s+p.post), config.Default(), Pick(g, routerKinds), map[string]any{}); ok {
				r.Eval("short" + p.pre + s)
			}
		})
	}
}

type class struct {
	name  string
	codes []int
	make  func(g *rand.Rand) string
}

func ctl(g *rand.Rand) string {
	c := byte(g.Intn(33))
	if c == '\n' || c == '\r' {
		c = ' '
	}
	return Pick(g, []string{string([]byte{c}), " ", "\t", "\x7f"})
}

func head(g *rand.Rand) string {
	return Pick(g, []string{"GET", "POST", "HEAD", "PUT", "DELETE", "TRACE", "OPTIONS", "PATCH"}) + " " + Pick(g, []string{"/", "/a", "/a/b?c=d"}) + " " + Pick(g, []string{"HTTP/1.1", "HTTP/1.0"}) + "\r\n" +
		strings.Join([]string{"", "Host: x\r\n", "Connection: keep-alive\r\n", "Content-Type: a/b\r\nAccept: */*\r\n"}[:1+g.Intn(4)], "")
}

var valid = map[string]bool{"GET": true, "HEAD": true, "POST": true, "PUT": true, "DELETE": true, "CONNECT": true, "OPTIONS": true, "TRACE": true, "PATCH": true}

var classes = []class{
	{"unknown method", []int{501}, func(g *rand.Rand) string {
		for {
			m := Pick(g, []string{"get", "GETT", "GE", "G", "BREW", "PoST", "HEAD1", "PATCHES", "GEU", "TRACF", "Options", "XONNECT", Word(g, Upper, 1, 9), Word(g, Alnum, 1, 12), RandCase(g, "DELETE")})
			if !valid[m] {
				return m + " / HTTP/1.1\r\nHost: x\r\n\r\n"
			}
		}
	}},
	{"empty method", []int{400, 501}, func(g *rand.Rand) string { return " / HTTP/1.1\r\n\r\n" }},
	{"unsupported version", []int{505}, func(g *rand.Rand) string {
		for {
			p := fmt.Sprintf("HTTP/%d.%d", g.Intn(10), g.Intn(10))
			if p != "HTTP/1.0" && p != "HTTP/1.1" {
				return "GET / " + p + "\r\nHost: x\r\n\r\n"
			}
		}
	}},
	{"malformed protocol", []int{400, 505}, func(g *rand.Rand) string {
		return "GET / " + Pick(g, []string{"", "HTTP", "HTTP/", "HTTP/1", "HTTP/1.", "HTTP/1.11", "http/1.1", "HTTP/1,1", "HTTP/1:0", "HTTP/x.y", "HTTP/1.x", "HTTP/-1.1", "HTTPS/1.1", "XTTP/1.1", "HTTP/1.1x", "HTTP/1.1\r\r", "1.1", "HTTP\\1.1", "\x00", "HTTP/1.1\x00", "HTTP/\xff.1"}) +
			Pick(g, []string{"\r\n", "\n"}) + "Host: x\r\n\r\n"
	}},
	{"missing protocol", []int{400, 505}, func(g *rand.Rand) string {
		return "GET " + Pick(g, []string{"/", "/a/b", "*", ""}) + Pick(g, []string{"\r\n", "\n"}) + "Host: x\r\n\r\n"
	}},
	{"missing path", []int{400}, func(g *rand.Rand) string {
		return Pick(g, []string{"GET", "POST", "HEAD"}) + " " + Pick(g, []string{"", "?", "?a=b", "?/path"}) + " HTTP/1.1\r\nHost: x\r\n\r\n"
	}},
	{"invalid escape", []int{400}, func(g *rand.Rand) string {
		bad := Pick(g, []string{"%", "%1", "%zz", "%1g", "%g1", "%%", "%%41", "% 41", "%-1", "%\x001", "%4", "%/a", "%0x41", "%:0", "%@1", "%`1", "%1/", "%1:", "%1G"})
		if len(bad) < 3 && !strings.HasPrefix(bad, "%%") {
			return "GET /" + Word(g, Alnum+"/", 0, 5) + bad + " HTTP/1.1\r\n\r\n"
		}
		return "GET /" + Word(g, Alnum+"/", 0, 5) + strings.ReplaceAll(bad, " ", "%") + Word(g, Alnum, 0, 3) + " HTTP/1.1\r\n\r\n"
	}},
	{"header without colon", []int{400}, func(g *rand.Rand) string {
		return head(g) + Pick(g, []string{"nocolon", "a", "Host", "Content-Length", "Transfer-Encoding 5", "a b c"}) + Pick(g, []string{"\r\n", "\n"}) + Pick(g, []string{"", "Host: x\r\n", "A: b\r\nC: d\r\n"}) + "\r\n"
	}},
	{"empty header name", []int{400}, func(g *rand.Rand) string {
		return head(g) + ":" + Pick(g, []string{"", " ", "x", " value"}) + "\r\n\r\n"
	}},
	{"blank or control in header name", []int{400}, func(g *rand.Rand) string {
		n := Pick(g, []string{"Host", "Content-Length", "Transfer-Encoding", "X"})
		i := g.Intn(len(n) + 1)
		return head(g) + n[:i] + ctl(g) + n[i:] + ": 5\r\n\r\n"
	}},
	{"bare CR at the end", []int{400}, func(g *rand.Rand) string {
		return head(g) + "\r" + Pick(g, []string{"a", "\r", " ", ":", "\x00"}) + Pick(g, []string{"\n", "\r\n", "a: b\r\n\r\n"})
	}},
	{"invalid content length", []int{400}, func(g *rand.Rand) string {
		return head(g) + "Content-Length:" + Pick(g, []string{"", " "}) + Pick(g, []string{"", "x", "-1", "+5", "5x", "1 2", "0x10", "1,1", "5, 5", "1.0", "99999999999999999999", "18446744073709551617", "9223372036854775808", "5;", "\"5\"", "5\x00", "٣"}) + "\r\n\r\n12345"
	}},
	{"conflicting content lengths", []int{400}, func(g *rand.Rand) string {
		return head(g) + "Content-Length: 5\r\n" + Pick(g, []string{"", "A: b\r\n"}) + "content-length: " + Pick(g, []string{"4", "0", "6", "50"}) + "\r\n\r\n12345"
	}},
	{"transfer coding without chunked", []int{400, 501}, func(g *rand.Rand) string {
		return head(g) + "Transfer-Encoding: " + Pick(g, []string{"gzip", "identity", "chunke", "chunkedx", "x chunked", "gzip, deflate", "chunked;q=1"}) + "\r\n\r\n12345"
	}},
}

func classed(r *Run, g *rand.Rand, cl class, i int) {
	bad := cl.make(g)
	before := g.Intn(3)
	kind := Pick(g, routerKinds)
	var pre []byte
	for n := before; n > 0; n-- {
		pre = append(pre, Gen{KeepAlive: true, Methods: []string{"GET", "POST", "PUT"}, Chunked: 50, BodyMax: 40, MaxHdrs: 3, Path: Pick(g, []string{"/", "/a", "/a/b"})}.Next(g).Wire...)
	}
	stream := append(pre, bad...)
	stream = append(stream, Pick(g, []string{"", "GET /marker HTTP/1.1\r\n\r\n", "GET /a/marker HTTP/1.1\r\n\r\n"})...)
	r.Step("class %s %q", cl.name, bad)
	c := map[string]any{"class": cl.name, "malformed": Q(bad)}
	e, conn, rs, ok := throw(r, g, stream, config.Default(), kind, c)
	if !ok {
		return
	}
	r.Eval("class" + kind + string(stream))
	r.Count("malformed", 1)
	id := "malformed/" + cl.name
	if len(e.methods)-len(e.fatal) > before {
		r.Violate(id+"/routed", c, "the malformed request was handed to the router")
		return
	}
	if len(e.methods)-len(e.fatal) < before {
		r.Violate(id+"/prefix", c, "only %d of the %d valid requests before were routed", len(e.methods)-len(e.fatal), before)
		return
	}
	if len(e.fatal) != 1 {
		r.Violate(id+"/no-error", c, "no error was reported (%d)", len(e.fatal))
		return
	}
	var final []Resp
	for _, p := range rs {
		if p.Code >= 200 {
			final = append(final, p)
		}
	}
	if len(final) != before+1 {
		r.Violate(id+"/responses", c, "%d responses to %d valid and 1 malformed request: %s", len(final), before, Q(conn.Out.Bytes()))
		return
	}
	code, good := final[before].Code, false
	for _, k := range cl.codes {
		good = good || k == code
	}
	if !good {
		r.Violate(id+"/code", c, "answered by %d, expected %v", code, cl.codes)
	}
	if conn.Events[len(conn.Events)-1] != "write" {
		r.Violate(id+"/end", c, "the server goes on with a %s after the error response", conn.Events[len(conn.Events)-1])
	}
	for _, p := range e.handled {
		if strings.Contains(p, "marker") {
			r.Violate(id+"/after", c, "a request after the malformed one was handled")
		}
	}
	r.Sample(cl.name, c)
}

// huge: long runs of a single byte never make the server keep reading without a bound.
func huge(r *Run, g *rand.Rand) {
	for _, pre := range []string{"", "GET ", "GET /", "GET /?", "GET / HTTP/1.1\r\n", "GET / HTTP/1.1\r\nA", "GET / HTTP/1.1\r\nA: ", "GET / HTTP/1.1\r\nContent-Length: 1", "GET / HTTP/1.1\r\nCookie: a"} {
		for _, b := range []string{"a", "A", " ", "/", "%41", "0", "1", "a:b\r\n", "\r\n", "a: \r\n", "=", ";", "\x00"} {
			r.Step("huge %q %q", pre, b)
			stream := []byte(pre + strings.Repeat(b, 300000/len(b)))
			stream = bytes.Clone(stream)
			conn := &Conn{In: stream}
			e := &rec{}
			c := map[string]any{"prefix": pre, "repeated": b}
			if !Serve(r, "huge", c, config.Default(), conn, makeRouter(e, g, "simple")) {
				continue
			}
			r.Eval("huge" + pre + b)
			r.Count("huge", 1)
			if _, err := ParseAll(conn.Out.Bytes(), e.methods); err != nil {
				r.Violate("huge-output", c, "%v", err)
			}
		}
	}
}

func main() {
	Main("C07", "short hostile strings at every grammar position (enumerated), mutated valid requests, malformation classes; distinct by bytes and router", func(r *Run) {
		g := r.Rng("classes")
		for i := 0; i < r.N(300, 6000); i++ {
			for _, cl := range classes {
				classed(r, g, cl, i)
			}
		}
		all := NearMethods()
		for i := range all {
			if r.Thorough || g.Intn(2) == 0 {
				classed(r, g, class{"unknown method", []int{501}, func(*rand.Rand) string { return all[i] + " / HTTP/1.1\r\nHost: x\r\n\r\n" }}, i)
			}
		}
		for i := 0; i < 1<<16; i++ {
			a, b := byte(i>>8), byte(i)
			ha, hb := strings.IndexByte("0123456789abcdefABCDEF", a) != -1, strings.IndexByte("0123456789abcdefABCDEF", b) != -1
			if ha && hb || strings.IndexByte(" ?\r\n#", a) != -1 || strings.IndexByte(" ?\r\n#", b) != -1 || !(r.Thorough || ha || hb || g.Intn(20) == 0) {
				continue
			}
			classed(r, g, class{"invalid escape", []int{400}, func(g *rand.Rand) string {
				return "GET /" + Word(g, Alnum+"/", 0, 5) + "%" + string([]byte{a, b}) + Word(g, Alnum, 0, 3) + " HTTP/1.1\r\n\r\n"
			}}, i)
		}
		huge(r, g)
		short(r, r.Rng("short"))
		gf := r.Rng("fuzz")
		for i := 0; i < r.N(300000, 8000000); i++ {
			fuzz(r, gf, i)
		}
		r.Floor("malformed", 12000)
		r.Floor("responses", 20000)
		r.Floor("handled", 10000)
		r.Floor("huge", 50)
	})
}
