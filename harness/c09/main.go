//go:build go1.22

// Monitor of C09: bodies carry complete requests to a marked path. Whatever the framing fields say, a marked request
// reaching the router, or a refused message followed by anything, is a violation.
package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
	. "github.com/indigo-web/indigo/internal/zzverif/vsrv"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
)

const marked = "GET /smuggled HTTP/1.1\r\nX-Id: smuggled\r\n\r\n"

type spelled struct {
	lines []string
	valid bool // acceptable framing
	len   int  // for valid lengths: what it means; -1: not given
	maybe bool // may be accepted with that meaning or refused
}

// spellings of the length of a body of n bytes
func lengths(n int) []spelled {
	ok := func(v string) spelled {
		return spelled{lines: []string{"Content-Length:" + v}, valid: true, len: n}
	}
	bad := func(lines ...string) spelled { return spelled{lines: lines, len: -1} }
	d := fmt.Sprint(n)
	l := []spelled{
		{valid: true, len: -1},
		ok(d), ok(" " + d), ok("  " + d + "  "), ok("\t" + d), ok(" 0" + d), ok(" 0000000000000000000000000" + d),
		{lines: []string{"content-length: " + d}, valid: true, len: n},
		{lines: []string{"CONTENT-LENGTH: " + d}, valid: true, len: n},
		{lines: []string{"Content-Length: " + d, "Content-Length: " + d}, valid: true, len: n, maybe: true},
		{lines: []string{"Content-Length: " + d, "cOnTeNt-LeNgTh: 0" + d}, valid: true, len: n, maybe: true},
	}
	for _, v := range []string{"", " ", "-" + d, "+" + d, "0x" + d, d + "x", d + " 1", d + " " + d, d + "\t" + d, "1\t" + d, d + " \t0", "\t" + d + "\t\t1", d + "," + d, d + ", " + d, d + "," + fmt.Sprint(n+1), d + ".0", "1e1", "\"" + d + "\"", d + ";",
		"x", "٥", "\x00" + d, d + "\x00", d + "\x0b", "99999999999999999999", "18446744073709551616", fmt.Sprint(uint64(1) << 63), "18446744073709551616" + d, fmt.Sprint(uint64(1<<63) + uint64(n)), "-0", "_" + d, "1_0", d + "\r"} {
		l = append(l, bad("Content-Length:"+v), bad("Content-Length: "+v))
	}
	for _, o := range []string{"0", "1", fmt.Sprint(n + 1), fmt.Sprint(n + len(marked)), ""} {
		if o == d {
			continue
		}
		l = append(l, bad("Content-Length: "+d, "Content-Length: "+o), bad("Content-Length: "+o, "Content-Length: "+d), bad("Content-Length: "+d, "X-A: b", "content-length: "+o),
			bad("Content-Length: "+d, "Content-Length: "+d, "Content-Length: "+o))
	}
	l = append(l, bad("Content-Length : "+d), bad(" Content-Length: "+d), bad("Content-Length\t: "+d), bad("Content Length: "+d), bad("Content-Length: "+d, " 0"), bad("Content\rLength: "+d), bad("Content-Length"))
	return l
}

// codings: valid means chunked; len is -1 when no coding is given.
func codings() []spelled {
	ok := func(lines ...string) spelled { return spelled{lines: lines, valid: true, len: 0} }
	bad := func(lines ...string) spelled { return spelled{lines: lines, len: -1} }
	return []spelled{
		{valid: true, len: -1},
		ok("Transfer-Encoding: chunked"), ok("transfer-encoding:chunked"), ok("TRANSFER-ENCODING: CHUNKED"), ok("Transfer-Encoding:   Chunked  "), ok("Transfer-Encoding:\tchunked\t"),
		ok("Transfer-Encoding: gzip, chunked"), ok("Transfer-Encoding: gzip,chunked"), ok("Transfer-Encoding: gzip,\tchunked"), ok("Transfer-Encoding: gzip\t, \t chunked"), ok("Transfer-Encoding: gzip , deflate , cHUNKED"), ok("Transfer-Encoding: , chunked"), ok("Transfer-Encoding: chunked,"),
		ok("Transfer-Encoding: gzip", "Transfer-Encoding: chunked"), ok("Transfer-Encoding: gzip", "X-A: b", "transfer-encoding: chunked"),
		bad("Transfer-Encoding: gzip"), bad("Transfer-Encoding: identity"), bad("Transfer-Encoding: xchunked"), bad("Transfer-Encoding: chunkedx"), bad("Transfer-Encoding: chunked1"), bad("Transfer-Encoding: \"chunked\""),
		bad("Transfer-Encoding: chunked;q=1"), bad("Transfer-Encoding: x chunked"), bad("Transfer-Encoding: chunked x"), bad("Transfer-Encoding: gzip, deflate"), bad("Transfer-Encoding: \x0bchunked1"), bad("Transfer-Encoding: chunke"),
		bad("Transfer-Encoding: gzip", "Transfer-Encoding: identity"), bad("Transfer-Encoding : chunked"), bad(" Transfer-Encoding: chunked"), bad("Transfer-Encoding\t: chunked"), bad("Transfer-Encoding: gzip", " chunked"), bad("Transfer\rEncoding: chunked"),
	}
}

type env struct {
	paths  []string
	bodies []string
	errs   []error
	fatal  []error
	late   string // what was read after an error
}

func makeRouter(e *env, mode string, inb bool) router.Router {
	h := func(q *http.Request) *http.Response {
		e.paths = append(e.paths, strings.Clone(q.Path))
		var b []byte
		var err error
		if mode == "abort" {
			_ = q.Body.Callback(func(d []byte) error { return errors.New("enough") })
		} else if mode == "stubborn" {
			// goes on reading whatever happens
			for n := 0; n < 300; {
				if err != nil {
					n++
				}
				d, rerr := q.Body.Retrieve()
				if err == nil {
					b = append(b, d...)
				} else if len(d) > 0 || rerr == nil || rerr == io.EOF {
					e.late = fmt.Sprintf("%q (%v) after %v", d, rerr, err)
				}
				if rerr == io.EOF {
					break
				}
				if err == nil {
					err = rerr
				}
			}
		} else {
			b, err = ReadBody(q, mode)
		}
		e.bodies, e.errs = append(e.bodies, string(b)), append(e.errs, err)
		return q.Respond().String("answer")
	}
	fatal := func(q *http.Request, err error) *http.Response {
		e.fatal = append(e.fatal, err)
		return http.Error(q, err)
	}
	if !inb {
		return Router{Req: h, Err: fatal}
	}
	in := inbuilt.New().Get("/first", h).Post("/first", h).Put("/first", h).Catch("/", h).Initialize()
	return Router{Req: in.OnRequest, Err: func(q *http.Request, err error) *http.Response {
		e.fatal = append(e.fatal, err)
		return in.OnError(q, err)
	}}
}

var modes = []string{"none", "partial3", "one-piece", "abort", "bytes", "string", "callback", "retrieve", "read1", "read7", "readall", "stubborn"}

func deliver(g *rand.Rand, conn *Conn, boundary int) string {
	switch g.Intn(5) {
	case 0:
		conn.One = 1
		return "bytes"
	case 1:
		conn.Cuts = RandomCuts(g, len(conn.In))
		return "cuts"
	case 2:
		conn.Cuts = []int{boundary}
		return "boundary"
	}
	return "whole"
}

func framing(r *Run, g *rand.Rand, cl, te spelled, body, proto string) {
	mode := Pick(g, modes)
	method := Pick(g, []string{"POST", "PUT", "GET"})
	if te.valid && len(te.lines) > 0 && cl.valid && len(cl.lines) == 1 && Chance(g, 60) {
		// chunked takes precedence over whatever length
		cl.lines = []string{fmt.Sprintf("Content-Length: %d", Pick(g, []int{0, 1, 5, len(body) + 1, len(body) + 60, 100000}))}
	}
	lines := append(append([]string{}, cl.lines...), te.lines...)
	if Chance(g, 50) {
		lines = append(append([]string{}, te.lines...), cl.lines...)
	}
	if proto == "HTTP/1.0" {
		lines = append(lines, "Connection: keep-alive")
	}
	if Chance(g, 30) {
		lines = append([]string{"Host: x"}, lines...)
	}
	head := method + " /first " + proto + "\r\n" + strings.Join(lines, "\r\n") + "\r\n\r\n"
	if len(lines) == 0 {
		head = method + " /first " + proto + "\r\n\r\n"
	}
	want := "" // the body the request has
	wire := body
	refused := !cl.valid || !te.valid
	switch {
	case te.len != -1 || len(te.lines) > 0: // chunked wins
		want = body
		wire = string(Chunk(g, []byte(body)))
	case cl.len >= 0 || len(cl.lines) > 0:
		want = body
	default:
		wire = "" // no body at all
	}
	next := "GET /next HTTP/1.1\r\nX-Id: next\r\n\r\n"
	conn := &Conn{In: []byte(head + wire + next), LogEvents: true}
	how := deliver(g, conn, len(head)+len(wire)/2)
	c := map[string]any{"stream": Q(conn.In), "mode": mode, "delivery": how}
	r.Step("framing %q", head)
	e := &env{}
	inb := Chance(g, 40)
	if !Serve(r, "serve", c, config.Default(), conn, makeRouter(e, mode, inb)) {
		return
	}
	r.Eval(string(conn.In) + mode + how)
	judge(r, c, e, conn, refused, cl.maybe, want, mode)
}

func judge(r *Run, c map[string]any, e *env, conn *Conn, refused, maybe bool, want, mode string) {
	for _, p := range e.paths {
		if p != "/first" && p != "/next" {
			r.Violate("smuggled", c, "bytes of a body were taken for a request to %q", p)
			return
		}
	}
	rs, err := ParseAll(conn.Out.Bytes(), nil)
	if err != nil {
		r.Violate("output", c, "%v", err)
		return
	}
	got := strings.Join(e.paths, " ")
	if maybe && got == "" {
		refused = true
	}
	if refused {
		r.Count("refused", 1)
		if got != "" {
			r.Violate("accepted", c, "a message with invalid framing was accepted: routed %q", got)
			return
		}
		if len(rs) != 1 || rs[0].Code < 400 {
			r.Violate("refusal", c, "a message with invalid framing must get one error response: %s", Q(conn.Out.Bytes()))
			return
		}
		if conn.Events[len(conn.Events)-1] != "write" {
			r.Violate("refusal-end", c, "the server goes on after refusing")
		}
		return
	}
	r.Count("accepted", 1)
	if got != "/first /next" {
		code := 0
		if len(rs) > 0 {
			code = rs[len(rs)-1].Code
		}
		r.Violate("lost", c, "routed %q instead of both requests (last response %d, errors %v)", got, code, e.fatal)
		return
	}
	switch mode {
	case "none", "partial3", "one-piece", "abort":
	default:
		if e.bodies[0] != want || e.errs[0] != nil {
			r.Violate("body", c, "body %q (%v) instead of %q", e.bodies[0], e.errs[0], want)
		}
	}
	if e.bodies[1] != "" {
		r.Violate("next-body", c, "the next request got a body: %q", e.bodies[1])
	}
	if len(rs) != 2 {
		r.Violate("responses", c, "%d responses", len(rs))
	}
}

// broken bodies: the connection ends, what follows is never interpreted
func broken(r *Run, g *rand.Rand, i int) {
	mode := Pick(g, modes)
	pre := Pick(g, []string{"", "5\r\nhello\r\n", "1\r\na\r\n2\r\nbc\r\n"})
	bad := Pick(g, []string{"x\r\n", "\r\n", "-1\r\n", "+1\r\na\r\n", "0x1\r\na\r\n", "g\r\n", "3\r\nabcd", "3\r\nab\r\n", "3\r\nabcX\r\n", "5\r\nhelloGET", "fffffffffffffffff\r\n", "ffffffffffffffff\r\n", "8000000000000000\r\n",
		"1000000000000000000\r\n", "20001\r\n", "0\rx", "0\r\nX", "0\r\nGET", " 5\r\n", "5\rx", "3\r\nabc\rX", ":\r\n", "\x00\r\n", "7fffffffffffffff\r\n", "G", "@\r\n", "`\r\n", "/\r\n"})
	// were the body read further, it could end well
	tail := Pick(g, []string{"", "", "0\r\n\r\n", "\r\n0\r\n\r\n", "1\r\na\r\n0\r\n\r\n", "\n0\r\n\r\n", "\n\r\n"})
	if bad == "3\r\nab\r\n" {
		tail = "" // "ab\r" is a chunk, ended by a bare LF, which is tolerated
	}
	body := pre + bad + tail + marked + marked
	head := "POST /first HTTP/1.1\r\nTransfer-Encoding: chunked\r\n" + Pick(g, []string{"", "Content-Length: 3\r\n"}) + "\r\n"
	conn := &Conn{In: []byte(head + body), LogEvents: true}
	how := deliver(g, conn, len(head)+len(pre)+g.Intn(len(bad)+1))
	c := map[string]any{"stream": Q(conn.In), "mode": mode, "delivery": how}
	r.Step("broken %q %s", bad, mode)
	e := &env{}
	if !Serve(r, "broken", c, config.Default(), conn, makeRouter(e, mode, Chance(g, 40))) {
		return
	}
	r.Eval("broken" + string(conn.In) + mode + how)
	r.Count("broken", 1)
	if len(e.paths) != 1 || e.paths[0] != "/first" {
		r.Violate("smuggled", c, "bytes after a broken body were taken for requests: %q", e.paths)
		return
	}
	if e.late != "" {
		r.Violate("read-on", c, "a broken body goes on: %s", e.late)
		return
	}
	switch mode {
	case "none", "partial3", "one-piece", "abort":
	default:
		if e.errs[0] == nil {
			r.Violate("broken-accepted", c, "a broken body was read without an error: %q", e.bodies[0])
		}
	}
	if rs, err := ParseAll(conn.Out.Bytes(), nil); err != nil || len(rs) != 1 {
		r.Violate("broken-responses", c, "%d responses, %v: %s", len(rs), err, Q(conn.Out.Bytes()))
	}
}

// too large bodies
func large(r *Run, g *rand.Rand, i int) {
	mode := Pick(g, modes)
	cfg := config.Default()
	cfg.Body.MaxSize = uint(g.Intn(30))
	body := strings.Repeat(marked, 2+g.Intn(3))
	head := fmt.Sprintf("POST /first HTTP/1.1\r\nContent-Length: %d\r\n\r\n", len(body))
	if Chance(g, 50) {
		head = "POST /first HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n"
		body = fmt.Sprintf("%x\r\n", len(body)) + body + "\r\n0\r\n\r\n"
	}
	conn := &Conn{In: []byte(head + body + marked)}
	how := deliver(g, conn, len(head)+g.Intn(len(body)))
	c := map[string]any{"stream": Q(conn.In), "mode": mode, "delivery": how, "MaxSize": cfg.Body.MaxSize}
	r.Step("large %s", mode)
	e := &env{}
	if !Serve(r, "large", c, cfg, conn, makeRouter(e, mode, Chance(g, 40))) {
		return
	}
	r.Eval("large" + string(conn.In) + mode + how)
	r.Count("large", 1)
	if len(e.paths) != 1 || e.paths[0] != "/first" {
		r.Violate("smuggled", c, "bytes of a too large body were taken for requests: %q", e.paths)
		return
	}
	if e.late != "" {
		r.Violate("read-on", c, "a too large body goes on: %s", e.late)
		return
	}
	if mode == "stubborn" {
		r.Count("stubborn", 1)
		if e.errs[0] == nil || uint(len(e.bodies[0])) > cfg.Body.MaxSize {
			r.Violate("large-read", c, "%d bytes of a too large body were handed over (%v)", len(e.bodies[0]), e.errs[0])
		}
	}
}

func main() {
	Main("C09", "product of Content-Length and Transfer-Encoding spellings x bodies of marked requests x reading mode x delivery; broken and too large bodies", func(r *Run) {
		g := r.Rng("framing")
		bodies := []string{marked, "", "x" + marked, "abc", "0\r\n\r\n" + marked, strings.Repeat(marked, 120)}
		for rep := 0; rep < r.N(3, 40); rep++ {
			for _, body := range bodies {
				if len(body) > 1000 && rep%3 > 0 {
					continue
				}
				for _, cl := range lengths(len(body)) {
					for _, te := range codings() {
						framing(r, g, cl, te, body, Pick(g, []string{"HTTP/1.1", "HTTP/1.1", "HTTP/1.0"}))
					}
				}
			}
		}
		// long bodies
		for i := 0; i < r.N(60, 1200); i++ {
			body := strings.Repeat(Pick(g, []string{marked, "x" + marked, "0\r\n\r\n" + marked}), g.Intn(Pick(g, []int{1000, 30000})))
			cl, te := spelled{valid: true, len: -1}, spelled{valid: true, len: -1}
			if Chance(g, 50) {
				cl = spelled{lines: []string{fmt.Sprintf("Content-Length: %d", len(body))}, valid: true, len: len(body)}
			} else {
				te = spelled{lines: []string{"Transfer-Encoding: chunked"}, valid: true}
			}
			framing(r, g, cl, te, body, Pick(g, []string{"HTTP/1.1", "HTTP/1.1", "HTTP/1.0"}))
			r.Count("long", 1)
		}
		for i := 0; i < r.N(8000, 300000); i++ {
			broken(r, g, i)
			large(r, g, i)
		}
		r.Floor("refused", 5000)
		r.Floor("accepted", 2000)
		r.Floor("broken", 3000)
		r.Floor("large", 3000)
		r.Floor("stubborn", 300)
	})
}
