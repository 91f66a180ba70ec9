//go:build go1.22

// Monitor of C06: after each response the connection's event log tells whether the server went on reading (and
// served the probe request behind it) or ended, compared with the rule of the protocol version.
package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/http/status"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
	. "github.com/indigo-web/indigo/internal/zzverif/vsrv"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
)

var kinds = []string{"empty", "text", "big", "json", "error", "text-error", "custom-error", "201", "204", "304", "301", "500", "599", "sized", "sized-big",
	"file", "nofile", "unsized", "cookies", "headers", "nil", "404", "read-body", "unread-body"}

var values = []string{"\x00", "", "close", "Close", "CLOSE", "cLoSe", " close ", "close\t", "keep-alive", "Keep-Alive", "KEEP-ALIVE", "kEEP-aLIVE", "  keep-alive  ",
	"\tkeep-alive", "closed", "clos", "keep-aliv", "keepalive", "keep_alive", "keep-alive1", "whatever", "x-close", "CLOSE1", "upgrade", "cl0se"}

var file string
var huge = make([]byte, 3<<20)

func respond(req *http.Request, kind string) *http.Response {
	r := req.Respond()
	switch kind {
	case "empty":
	case "text":
		r.String("hello")
	case "big":
		r.Bytes(make([]byte, 70000))
	case "json":
		r.JSON(map[string]int{"a": 1})
	case "error":
		r.Error(status.ErrForbidden)
	case "text-error":
		r.Error(os.ErrNotExist)
	case "custom-error":
		r.Error(os.ErrNotExist, status.Teapot)
	case "201", "204", "304", "301", "500", "599", "404":
		var c int
		fmt.Sscan(kind, &c)
		r.Code(status.Code(c))
	case "sized":
		r.Attachment(strings.NewReader("attached"), 8)
	case "sized-big":
		r.Attachment(strings.NewReader(strings.Repeat("x", 150000)), 150000)
	case "sized-huge":
		r.Attachment(bytes.NewReader(huge), len(huge))
	case "unsized":
		r.Attachment(strings.NewReader("stream of unknown size"), -1)
	case "file":
		r.File(file)
	case "nofile":
		r.File(file + ".none")
	case "cookies":
		r.Cookie(cookie.New("a", "b")).String("x")
	case "headers":
		r.Header("Connection", "close").Header("X-Other", "keep-alive").String("x")
	case "nil":
		return nil
	case "read-body":
		_, _ = req.Body.Bytes()
	case "unread-body":
	}
	return r
}

type env struct {
	handled []string
	errors  []error
}

func makeRouter(e *env, inb bool) router.Router {
	h := func(req *http.Request) *http.Response {
		e.handled = append(e.handled, strings.Clone(req.Headers.Value("x-id")))
		return respond(req, req.Headers.Value("x-kind"))
	}
	if inb {
		return inbuilt.New().Get("/", h).Post("/", h).Put("/", h).Get("/{x}", h).Initialize()
	}
	return Router{Req: h, Err: func(req *http.Request, err error) *http.Response {
		e.errors = append(e.errors, err)
		return http.Error(req, err)
	}}
}

// keeps is the rule of the statement.
func keeps(proto, value string) bool {
	v := strings.ToLower(strings.Trim(value, " \t"))
	if proto == "HTTP/1.0" {
		return v == "keep-alive"
	}
	return v != "close"
}

func request(proto, method, kind, value, id string, g *rand.Rand) string {
	s := method + " / " + proto + "\r\n"
	lines := []string{"X-Id: " + id, "X-Kind: " + kind}
	if value != "\x00" {
		lines = append(lines, Pick(g, []string{"Connection", "connection", "CONNECTION"})+":"+Pick(g, []string{"", " "})+value)
	}
	body := ""
	if method == "POST" || method == "PUT" {
		body = "body of " + id
		if g.Intn(60) == 0 {
			body = strings.Repeat(body, g.Intn(40000))
		}
		if Chance(g, 50) {
			lines = append(lines, "Transfer-Encoding: chunked")
			body = string(Chunk(g, []byte(body)))
		} else {
			lines = append(lines, fmt.Sprintf("Content-Length: %d", len(body)))
		}
	}
	g.Shuffle(len(lines), func(i, j int) { lines[i], lines[j] = lines[j], lines[i] })
	return s + strings.Join(lines, "\r\n") + "\r\n\r\n" + body
}

// told: the end of a connection is reported exactly once.
func told(r *Run, c any, e *env, plain bool, want error) {
	if !plain {
		return
	}
	r.Count("told", 1)
	if len(e.errors) != 1 || (want != nil && e.errors[0] != want) || (want == nil && e.errors[0] == error(status.ErrCloseConnection)) {
		r.Violate("notification", c, "the end of the connection is reported by %v", e.errors)
	}
}

// one: k persistent requests, the deciding one, then a probe.
func one(r *Run, g *rand.Rand, proto, value, method, kind string, before int, inb, pieces bool) {
	r.Step("%s %q %s %s", proto, value, method, kind)
	var reqs, ids, methods []string
	add := func(p, m, k, v string) {
		id := fmt.Sprint("r", len(reqs))
		reqs, ids, methods = append(reqs, request(p, m, k, v, id, g)), append(ids, id), append(methods, m)
	}
	for i := 0; i < before; i++ {
		if Chance(g, 50) {
			add("HTTP/1.1", Pick(g, []string{"GET", "POST", "HEAD"}), Pick(g, []string{"text", "unsized", "sized", "error", "nil"}), Pick(g, []string{"\x00", "keep-alive", "whatever"}))
		} else {
			add("HTTP/1.0", Pick(g, []string{"GET", "POST", "HEAD"}), Pick(g, []string{"text", "sized", "error", "nil"}), "Keep-Alive")
		}
	}
	add(proto, method, kind, value)
	add("HTTP/1.1", "GET", "text", "\x00")
	n := before + 1
	expect := n
	if keeps(proto, value) {
		expect = n + 1
	}
	if proto == "HTTP/1.0" && kind == "unsized" {
		if method == "HEAD" {
			return // nothing is claimed: there is no body to delimit
		}
		expect = n // the end of the connection delimits the body
	}
	stream := strings.Join(reqs, "")
	conn := &Conn{In: []byte(stream), LogEvents: true}
	if pieces {
		for _, q := range reqs {
			conn.Cuts = append(conn.Cuts, len(q))
		}
	}
	c := map[string]any{"stream": Q(stream), "deciding": Q(reqs[before]), "kind": kind}
	e := &env{}
	if !Serve(r, "serve", c, config.Default(), conn, makeRouter(e, inb)) {
		return
	}
	r.Eval(fmt.Sprint(proto, value, method, kind, before, inb, pieces))
	id := fmt.Sprintf("%s/%s", proto, kind)
	if len(e.handled) != expect {
		what := "closed although persistent"
		if len(e.handled) > expect {
			what = "kept although it had to end"
		}
		r.Violate("persistence/"+what, c, "%s with Connection %q, %s %s: connection %s (%d requests handled, expected %d)", proto, value, method, kind, what, len(e.handled), expect)
		return
	}
	wire := conn.Out.Bytes()
	if expect == n+1 || before > 0 {
		r.Count("kept", 1)
	}
	if expect == n {
		r.Count("ended", 1)
		// nothing may be read or written after the deciding response
		last := -1
		for i, ev := range conn.Events {
			if ev == "write" {
				last = i
			}
		}
		for _, ev := range conn.Events[last+1:] {
			if ev == "read" {
				r.Violate("reads-on", c, "%s: the server reads on after the response that ended the connection", id)
				return
			}
		}
	}
	rs, err := ParseAll(wire, methods)
	if err != nil {
		r.Violate("output", c, "%v in %s", err, Q(wire))
		return
	}
	if len(rs) != expect {
		r.Violate("responses", c, "%d responses, expected %d", len(rs), expect)
	}
	told(r, c, e, !inb, status.ErrCloseConnection)
	r.Sample(id, c)
}

// faults: the k-th write fails; nothing may follow.
func faults(r *Run, g *rand.Rand, kind, method string, fail int, short bool) {
	r.Step("fault %s %s %d", kind, method, fail)
	var reqs []string
	for i := 0; i < 3; i++ {
		reqs = append(reqs, request("HTTP/1.1", method, kind, "\x00", fmt.Sprint("r", i), g))
	}
	stream := strings.Join(reqs, "")
	conn := &Conn{In: []byte(stream), FailWrite: fail, ShortWrite: short}
	if Chance(g, 50) {
		conn.Cuts = RandomCuts(g, len(stream))
	}
	c := map[string]any{"stream": Q(stream), "failing write": fail, "kind": kind}
	e := &env{}
	plain := Chance(g, 50)
	if !Serve(r, "fault", c, config.Default(), conn, makeRouter(e, !plain)) {
		return
	}
	r.Eval(fmt.Sprint("fault", kind, method, fail, short))
	if conn.Writes < fail {
		told(r, c, e, plain, status.ErrCloseConnection)
		return // finished before
	}
	r.Count("failed_writes", 1)
	told(r, c, e, plain, status.ErrCloseConnection)
	if conn.AfterFail > 0 {
		r.Violate("after-failure", c, "%d reads or writes after the failed write %d of a %s response", conn.AfterFail, fail, kind)
	}
}

// fatal: a malformed request in the middle; one error response, then nothing.
func fatal(r *Run, g *rand.Rand, bad string, before int, inb bool) {
	r.Step("fatal %q", bad)
	var methods []string
	var s string
	for i := 0; i < before; i++ {
		methods = append(methods, "GET")
		s += request("HTTP/1.1", "GET", Pick(g, []string{"text", "unsized", "sized"}), "\x00", fmt.Sprint("r", i), g)
	}
	cut := len(s) + len(bad)
	s += bad + "GET / HTTP/1.1\r\nX-Id: probe\r\nX-Kind: text\r\n\r\n"
	conn := &Conn{In: []byte(s), LogEvents: true}
	if Chance(g, 50) {
		conn.Cuts = []int{cut}
	}
	c := map[string]any{"stream": Q(s)}
	e := &env{}
	if !Serve(r, "fatal", c, config.Default(), conn, makeRouter(e, inb)) {
		return
	}
	r.Eval("fatal" + s + fmt.Sprint(inb))
	r.Count("fatal", 1)
	told(r, c, e, !inb, nil)
	if len(e.handled) != before {
		r.Violate("after-fatal/handled", c, "handlers ran for %q, only %d requests precede the malformed one", e.handled, before)
		return
	}
	rs, err := ParseAll(conn.Out.Bytes(), methods)
	if err != nil || len(rs) != before+1 || rs[before].Code < 400 {
		r.Violate("after-fatal/response", c, "%d responses (%v): %s", len(rs), err, Q(conn.Out.Bytes()))
		return
	}
	if conn.Events[len(conn.Events)-1] != "write" {
		r.Violate("after-fatal/event", c, "the error response is followed by a %s", conn.Events[len(conn.Events)-1])
	}
}

// truncated: the client goes away anywhere; reported once.
func truncated(r *Run, g *rand.Rand) {
	var s string
	for n := 1 + g.Intn(3); n > 0; n-- {
		s += request("HTTP/1.1", Pick(g, []string{"GET", "POST", "PUT"}), Pick(g, []string{"text", "unsized", "sized", "error", "nil"}), "\x00", "t", g)
	}
	s = s[:g.Intn(len(s)+1)]
	conn := &Conn{In: []byte(s)}
	if Chance(g, 50) {
		conn.Cuts = RandomCuts(g, len(s))
	}
	c := map[string]any{"stream": Q(s)}
	e := &env{}
	r.Step("truncated %v", c)
	if !Serve(r, "truncated", c, config.Default(), conn, makeRouter(e, false)) {
		return
	}
	r.Eval("truncated" + s)
	r.Count("truncated", 1)
	told(r, c, e, true, status.ErrCloseConnection)
}

// upgraded: asking for another version of the protocol does not hide what the Connection says.
func upgraded(r *Run, g *rand.Rand, proto, to, value, method, kind string) {
	if kind == "unsized" {
		kind = "sized"
	}
	first := request(proto, method, kind, value, "r0", g)
	first = strings.Replace(first, "\r\n", "\r\nUpgrade: "+to+"\r\n", 1)
	s := first + request("HTTP/1.1", "GET", "text", "\x00", "r1", g)
	conn := &Conn{In: []byte(s), Cuts: []int{len(first)}}
	c := map[string]any{"stream": Q(s), "kind": kind}
	e := &env{}
	r.Step("upgraded %v", c)
	if !Serve(r, "upgraded", c, config.Default(), conn, makeRouter(e, Chance(g, 50))) {
		return
	}
	r.Eval("upgraded" + s)
	r.Count("upgraded", 1)
	want := 2
	if strings.EqualFold(strings.Trim(value, " \t"), "close") {
		want = 1
	}
	if to != "HTTP/1.0" && to != "HTTP/1.1" && proto == "HTTP/1.0" && !strings.EqualFold(value, "keep-alive") {
		want = 1 // the protocol stays
	}
	if len(e.handled) != want {
		r.Violate("persistence/upgraded", c, "%s upgrading to %s with Connection %q: %d of 2 requests handled, expected %d", proto, to, value, len(e.handled), want)
	}
}

func main() {
	Main("C06", "versions x Connection values x methods x response kinds x position x delivery (full product), write faults at every write, malformed requests", func(r *Run) {
		file = filepath.Join(r.Scratch, "file.txt")
		if err := os.WriteFile(file, []byte(strings.Repeat("file content ", 20)), 0o644); err != nil {
			r.Inconclusive("%v", err)
			return
		}
		g := r.Rng("product")
		for rep := 0; rep < r.N(1, 12); rep++ {
			for _, proto := range []string{"HTTP/1.0", "HTTP/1.1"} {
				for _, v := range values {
					for _, m := range []string{"GET", "HEAD", "POST"} {
						for _, k := range kinds {
							for before := 0; before < 3; before++ {
								one(r, g, proto, v, m, k, before, Chance(g, 50), Chance(g, 50))
							}
						}
					}
				}
			}
		}
		for _, proto := range []string{"HTTP/1.0", "HTTP/1.1"} {
			for _, v := range []string{"close", "keep-alive"} {
				for _, m := range []string{"GET", "HEAD", "POST"} {
					one(r, g, proto, v, m, "sized-huge", 0, false, false)
				}
			}
		}
		for _, proto := range []string{"HTTP/1.0", "HTTP/1.1"} {
			for _, to := range []string{"HTTP/1.0", "HTTP/1.1"} {
				for _, v := range []string{"close", "Close", " CLOSE\t", "keep-alive", "Keep-Alive"} {
					for _, m := range []string{"GET", "HEAD", "POST"} {
						for _, k := range kinds {
							upgraded(r, g, proto, to, v, m, k)
						}
					}
				}
			}
		}
		for _, proto := range []string{"HTTP/1.0", "HTTP/1.1"} {
			for _, to := range []string{"HTTP/2", "HTTP/2.0", "h2c", "h2", "websocket", "WebSocket", "HTTP/3.0", "TLS/1.0", "HTTP/1.2", "x"} {
				for _, v := range []string{"close", "upgrade", "Upgrade", "keep-alive", "\x00"} {
					for _, k := range []string{"text", "file", "sized"} {
						upgraded(r, g, proto, to, v, "GET", k)
					}
				}
			}
		}
		for _, k := range kinds {
			for _, m := range []string{"GET", "HEAD", "POST"} {
				for fail := 1; fail < r.N(14, 30); fail++ {
					faults(r, g, k, m, fail, fail%2 == 0)
				}
			}
		}
		bad := []string{"BAD / HTTP/1.1\r\n\r\n", "GET / HTTP/1.7\r\n\r\n", "GET  \r\n\r\n", "GET /%zz HTTP/1.1\r\n\r\n", "GET / HTTP/1.1\r\nno colon\r\n\r\n",
			"GET / HTTP/1.1\r\nContent-Length: x\r\n\r\n", "GET / HTTP/1.0\r\nContent-Length: 1 2\r\nConnection: keep-alive\r\n\r\n", "GET / HTTP/1.1\r\nTransfer-Encoding: gzip\r\n\r\n",
			"GET / HTTP/1.1\r\nConnection: keep-alive\r\n: x\r\n\r\n", "GET / HTTP/1.1\r\n\rX", "GET / HTTP/1.1\r\n" + strings.Repeat("a", 200) + ": b\r\n\r\n",
			"GET / HTTP/1.1\r\nA: " + strings.Repeat("a", 9000) + "\r\n\r\n", "GET /" + strings.Repeat("a", 66000) + " HTTP/1.1\r\n\r\n",
			"GET / HTTP/1.1\r\n" + strings.Repeat("a:b\r\n", 51) + "\r\n"}
		for rep := 0; rep < r.N(6, 60); rep++ {
			for _, b := range bad {
				for before := 0; before < 3; before++ {
					fatal(r, g, b, before, rep%2 == 0)
				}
			}
		}
		for i := 0; i < r.N(5000, 60000); i++ {
			truncated(r, g)
		}
		r.Floor("told", 3000)
		r.Floor("kept", 3000)
		r.Floor("ended", 3000)
		r.Floor("failed_writes", 150)
		r.Floor("upgraded", 1000)
		r.Floor("fatal", 200)
	})
}
