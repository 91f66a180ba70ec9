//go:build go1.22

// Monitor of C29: random stacks of the built-in middlewares over random handlers; every response, log line, context and
// handler call is recorded and compared with a model of what each middleware announces.
package main

import (
	"context"
	"errors"
	"fmt"
	"log"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/status"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
	. "github.com/indigo-web/indigo/internal/zzverif/vsrv"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/inbuilt/middleware"
)

type answer struct {
	code    int
	headers []string // lower-case name: value, without the framework's own
	body    string
	ctype   string
}

type observation struct {
	handlers []string
	contexts []string
	logs     []string
	std      []string // request lines written to the standard logger
	panics   int      // recovered ones; everything else written to the standard logger
}

// standard watches the standard logger: nobody but LogRequests without loggers writes requests to it, and Recover
// reports panics there.
type standard struct{ o *observation }

func (s *standard) Write(b []byte) (int, error) {
	line := strings.TrimSuffix(string(b), "\n")
	for _, m := range []string{"GET ", "POST ", "HEAD ", "DELETE "} {
		if strings.HasPrefix(line, m) {
			s.o.std = append(s.o.std, line)
			return len(b), nil
		}
	}
	if !strings.HasPrefix(line, "Unknown ") {
		s.o.panics++
	}
	return len(b), nil
}

var std standard

type layer struct {
	kind string
	arg  string
	to   string
}

type recorder struct {
	o    *observation
	name string
}

func (l recorder) Printf(f string, v ...any) {
	line := fmt.Sprintf(f, v...)
	if strings.HasPrefix(line, "Unknown ") {
		return // the end of the connection, which is no request
	}
	l.o.logs = append(l.o.logs, l.name+"|"+line)
}

type key struct{}

func (l layer) middleware(o *observation) inbuilt.Middleware {
	switch l.kind {
	case "server":
		if l.arg == "" {
			return middleware.ServerHeader()
		}
		return middleware.ServerHeader(strings.Split(l.arg, " ")...)
	case "log":
		return middleware.LogRequests(recorder{o, l.arg})
	case "logd":
		return middleware.LogRequests()
	case "log2":
		return middleware.LogRequests(recorder{o, l.arg + "-a"}, recorder{o, l.arg + "-b"})
	case "log9":
		var ls []middleware.Logger
		for i := 0; i < 9; i++ {
			ls = append(ls, recorder{o, fmt.Sprint(l.arg, i)})
		}
		return middleware.LogRequests(ls...)
	case "redirect":
		return middleware.Redirect(l.arg, l.to)
	case "ctx":
		return middleware.CustomContext(context.WithValue(context.Background(), key{}, l.arg))
	case "recover":
		return middleware.Recover
	case "https":
		return middleware.HTTPSOnly()
	}
	return func(next inbuilt.Handler, req *http.Request) *http.Response { return next(req) }
}

var outcomes = []string{"empty", "nil", "text", "bytes", "code", "error", "text-error", "json", "sized", "unsized", "cookies", "headers", "server", "location", "panic", "panic-error",
	"panic-after-respond", "panic-runtime", "teapot", "status", "close-code", "panic-in-body"}

func respond(req *http.Request, kind string) *http.Response {
	r := req.Respond()
	switch kind {
	case "nil":
		return nil
	case "text":
		return r.String("hello")
	case "bytes":
		return http.Bytes(req, []byte("some bytes"))
	case "code":
		return http.Code(req, status.Created)
	case "error":
		return http.Error(req, status.ErrForbidden)
	case "text-error":
		return r.Error(errors.New("something"))
	case "json":
		return r.JSON(map[string]int{"a": 1})
	case "sized":
		return r.Attachment(strings.NewReader("attached"), 8)
	case "unsized":
		return r.Attachment(strings.NewReader("stream"), -1)
	case "cookies":
		return r.Cookie(cookie.New("a", "b"), cookie.New("c", "d"))
	case "headers":
		return r.Header("X-A", "1", "2").Header("X-B", "3").String("h")
	case "server":
		return r.Header("X-Server", "mine").Header("Server", "handler")
	case "location":
		return r.Code(status.SeeOther).Header("Location", "/elsewhere")
	case "panic":
		panic("the handler panics")
	case "panic-error":
		panic(errors.New("an error"))
	case "panic-after-respond":
		r.Code(status.Created).Header("X-Lost", "1").String("lost").Cookie(cookie.New("lost", "1"))
		panic("late")
	case "panic-runtime":
		var m map[string]int
		m["x"] = 1
	case "panic-in-body":
		_, _ = req.Body.Bytes()
		var p *answer
		return r.String(p.body)
	case "teapot":
		return r.Code(status.Teapot).ContentType("text/tea").String("short and stout")
	case "status":
		return r.Code(status.Accepted).Status("Right Away").String("x")
	}
	return r
}

func expected(kind string) (a answer, isNil, panics bool) {
	a = answer{code: 200, ctype: "text/html"}
	switch kind {
	case "nil":
		return a, true, false
	case "text":
		a.body = "hello"
	case "bytes":
		a.body = "some bytes"
	case "code":
		a.code = 201
	case "error":
		a.code = 403
	case "text-error":
		a.code, a.body = 500, "something"
	case "json":
		a.body, a.ctype = `{"a":1}`, "application/json"
	case "sized":
		a.body = "attached"
	case "unsized":
		a.body = "stream"
	case "cookies":
		a.headers = []string{"set-cookie: a=b", "set-cookie: c=d"}
	case "headers":
		a.headers, a.body = []string{"x-a: 1", "x-a: 2", "x-b: 3"}, "h"
	case "server":
		a.headers = []string{"x-server: mine", "server: handler"}
	case "location":
		a.code, a.headers = 303, []string{"location: /elsewhere"}
	case "teapot":
		a.code, a.ctype, a.body = 418, "text/tea", "short and stout"
	case "status":
		a.code, a.body = 202, "x"
	default:
		panics = strings.HasPrefix(kind, "panic")
	}
	return a, false, panics
}

type request struct {
	method, path, outcome, base string
	decoded                     string
}

// model computes the answer, the logs, the contexts seen by handlers.
func model(stack []layer, q request, o *observation, ctx string, enc encryption.Token) (a answer, isNil, panics bool) {
	if len(stack) == 0 {
		o.handlers = append(o.handlers, q.outcome)
		o.contexts = append(o.contexts, ctx)
		return expected(q.outcome)
	}
	l, rest := stack[0], stack[1:]
	switch l.kind {
	case "redirect":
		if q.decoded == l.arg {
			return answer{code: 307, ctype: "text/html", headers: []string{"location: " + l.to}}, false, false
		}
	case "ctx":
		ctx = l.arg
	case "https":
		if enc == encryption.Plain {
			return answer{code: 301, ctype: "text/html", headers: []string{"location: *"}}, false, false
		}
	}
	a, isNil, panics = model(rest, q, o, ctx, enc)
	if panics {
		if l.kind == "recover" {
			o.panics++
			return answer{code: 500, ctype: "text/html"}, false, false
		}
		return a, isNil, true
	}
	switch l.kind {
	case "server":
		v := l.arg
		if v == "" {
			v = "indigo"
		}
		a.headers = append(append([]string(nil), a.headers...), "server: "+v)
		isNil = false
	case "log", "log2", "log9", "logd":
		line := fmt.Sprintf("%s %s %d", q.method, http.Escape(q.decoded), a.code)
		if l.kind == "log9" {
			for i := 0; i < 9; i++ {
				o.logs = append(o.logs, fmt.Sprint(l.arg, i)+"|"+line)
			}
		} else if l.kind == "logd" {
			o.std = append(o.std, line)
		} else if l.kind == "log" {
			o.logs = append(o.logs, l.arg+"|"+line)
		} else {
			o.logs = append(o.logs, l.arg+"-a|"+line, l.arg+"-b|"+line)
		}
		isNil = false
	}
	return a, isNil, false
}

func canon(resp Resp) (a answer) {
	a.code, a.body = resp.Code, string(resp.Body)
	for _, h := range resp.Headers {
		switch n := strings.ToLower(h[0]); n {
		case "content-type":
			a.ctype = h[1]
		case "content-length", "transfer-encoding", "accept-encodings":
		default:
			a.headers = append(a.headers, n+": "+h[1])
		}
	}
	return a
}

func (a answer) String() string {
	hs := append([]string(nil), a.headers...)
	for i, h := range hs {
		if a.code == 301 && strings.HasPrefix(h, "location: ") {
			hs[i] = "location: *"
		}
	}
	// the order of different headers doesn't matter
	sort.SliceStable(hs, func(i, j int) bool { return strings.SplitN(hs[i], ":", 2)[0] < strings.SplitN(hs[j], ":", 2)[0] })
	return fmt.Sprintf("%d %q %q %q", a.code, hs, a.ctype, a.body)
}

var paths = []string{"/", "/a", "/a/b", "/%0a", "/b c"}

func genStack(g *rand.Rand, max int) (stack []layer) {
	for n := g.Intn(max + 1); n > 0; n-- {
		l := layer{kind: Pick(g, []string{"server", "log", "log2", "log9", "logd", "redirect", "ctx", "recover", "pass", "https", "server", "log", "ctx", "recover"})}
		switch l.kind {
		case "server":
			l.arg = Pick(g, []string{"", "nginx", "my server 1.0"})
		case "redirect":
			l.arg, l.to = Pick(g, []string{"/a", "/nowhere", "/a/b", "/", "/A", "/a/"}), Pick(g, []string{"/b", "https://example.com/x", "/a"})
		case "https":
			if Chance(g, 70) {
				l.kind = "pass"
			}
		default:
			l.arg = fmt.Sprint("m", g.Intn(1000))
		}
		stack = append(stack, l)
	}
	return stack
}

func has(stack []layer, kind string) bool {
	for _, l := range stack {
		if l.kind == kind {
			return true
		}
	}
	return false
}

func one(r *Run, g *rand.Rand) {
	global, local := genStack(g, 4), genStack(g, 3)
	enc := Pick(g, []encryption.Token{encryption.Plain, encryption.TLS})
	got, want := &observation{}, &observation{}
	std.o = got
	handler := func(req *http.Request) *http.Response {
		kind := strings.Clone(req.Headers.Value("x-outcome"))
		got.handlers = append(got.handlers, kind)
		v, _ := req.Ctx.Value(key{}).(string)
		got.contexts = append(got.contexts, v)
		return respond(req, kind)
	}
	rt := inbuilt.New()
	for _, l := range global {
		rt.Use(l.middleware(got))
	}
	var locals []inbuilt.Middleware
	for _, l := range local {
		locals = append(locals, l.middleware(got))
	}
	for _, p := range []string{"/", "/a", "/a/b"} {
		rt.Get(p, handler, locals...).Post(p, handler, locals...)
	}
	aliased := Chance(g, 30)
	if aliased {
		rt.Alias("/al", "/a")
	}
	rt.RouteError(handler, status.NotFound, status.MethodNotAllowed)

	var reqs []request
	var stream []byte
	var methods []string
	var answers []answer
	for n := 1 + g.Intn(5); n > 0; n-- {
		q := request{method: Pick(g, []string{"GET", "GET", "POST", "HEAD", "DELETE"}), path: Pick(g, paths[:4]), outcome: Pick(g, outcomes)}
		if q.outcome == "close-code" {
			q.outcome = "empty"
		}
		q.decoded = strings.ReplaceAll(q.path, "%0a", "\n")
		if aliased && Chance(g, 30) {
			q.path, q.decoded = "/al", "/a"
			r.Count("aliased", 1)
		}
		stack := append(append([]layer(nil), global...), local...)
		if q.decoded == "/\n" || q.method == "DELETE" {
			stack = global
		}
		_, _, panics := expected(q.outcome)
		if panics && !has(stack, "recover") {
			q.outcome = "text"
		}
		a, _, panicked := model(stack, q, want, "", enc)
		if panicked {
			panic("monitor: nobody recovers")
		}
		if q.method == "HEAD" {
			a.body = ""
		}
		answers = append(answers, a)
		reqs = append(reqs, q)
		methods = append(methods, q.method)
		stream = fmt.Appendf(stream, "%s %s HTTP/1.1\r\nHost: h\r\nX-Outcome: %s\r\n", q.method, q.path, q.outcome)
		if q.method == "POST" {
			stream = append(stream, "Content-Length: 4\r\n\r\nbody"...)
		} else {
			stream = append(stream, "\r\n"...)
		}
	}
	conn := &Conn{In: stream}
	if Chance(g, 30) {
		conn.Cuts = RandomCuts(g, len(stream))
	}
	c := map[string]any{"global": fmt.Sprint(global), "local": fmt.Sprint(local), "requests": fmt.Sprint(reqs), "encryption": enc}
	r.Step("%v", c)
	if !ServeEnc(r, "middlewares", c, config.Default(), conn, enc, rt.Initialize()) {
		return
	}
	r.Eval(fmt.Sprint(c))
	// the end of the connection goes through the default handler of errors, which has no answer to log
	rs, err := ParseAll(conn.Out.Bytes(), methods)
	if err != nil || len(rs) != len(reqs) {
		r.Violate("responses", c, "%d responses to %d requests (%v): %s", len(rs), len(reqs), err, Q(conn.Out.Bytes()))
		return
	}
	for i, resp := range rs {
		if a := canon(resp); a.String() != answers[i].String() {
			r.Violate("response", c, "request %d %v is answered %v, expected %v", i, reqs[i], a, answers[i])
			return
		}
		r.Count("responses", 1)
	}
	if !reflect.DeepEqual(got.handlers, want.handlers) {
		r.Violate("handlers", c, "handlers called for %q, expected %q", got.handlers, want.handlers)
		return
	}
	if !reflect.DeepEqual(got.contexts, want.contexts) {
		r.Violate("context", c, "handlers saw the contexts %q, expected %q", got.contexts, want.contexts)
		return
	}
	if !reflect.DeepEqual(got.logs, want.logs) {
		r.Violate("log", c, "logged %q, expected %q", got.logs, want.logs)
		return
	}
	if !reflect.DeepEqual(got.std, want.std) {
		r.Violate("standard-log", c, "the standard logger got %q, expected %q", got.std, want.std)
		return
	}
	if got.panics < want.panics || (want.panics == 0 && got.panics > 0) {
		r.Violate("panic-log", c, "%d recovered panics, %d other lines on the standard logger", want.panics, got.panics)
		return
	}
	r.Count("standard_logs", int64(len(got.std)))
	r.Count("panics_logged", int64(want.panics))
	r.Count("logs", int64(len(got.logs)))
	for _, q := range reqs {
		r.Count("outcome_"+q.outcome, 1)
	}
	for _, l := range append(global, local...) {
		r.Count("layer_"+l.kind, 1)
	}
	r.Sample("stack", c)
}

func main() {
	Main("C29", "random stacks (global and per route) of all built-in middlewares x handler outcomes x methods x paths, several requests per connection", func(r *Run) {
		log.SetFlags(0)
		log.SetOutput(&std)
		g := r.Rng("stacks")
		for i := 0; i < r.N(60000, 800000); i++ {
			one(r, g)
		}
		r.Floor("responses", 100000)
		r.Floor("logs", 30000)
		r.Floor("standard_logs", 3000)
		r.Floor("panics_logged", 3000)
		r.Floor("aliased", 3000)
		for _, o := range outcomes {
			if o != "close-code" {
				r.Floor("outcome_"+o, 1000)
			}
		}
		for _, l := range []string{"server", "log", "log2", "log9", "logd", "redirect", "ctx", "recover", "https"} {
			r.Floor("layer_"+l, 1000)
		}
	})
}
