//go:build go1.22

// Monitor of C03: every request of a shared connection is compared with the same request on its own fresh connection.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/proto"
	"github.com/indigo-web/indigo/http/status"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
	. "github.com/indigo-web/indigo/internal/zzverif/vsrv"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/inbuilt/middleware"
)

// what a run shows: per handler call everything visible, and the decoded responses
type trace struct {
	calls []string
	resps []Resp
	raw   string
	err   error
	ok    bool
	conn  *Conn
}

func look(req *http.Request) string {
	s := Take(req)
	var sb strings.Builder
	fmt.Fprintf(&sb, "%+v", s)
	if strings.Contains(req.Headers.Value("x-look"), "q") {
		p, err := req.Query.Unwrap()
		fmt.Fprintf(&sb, " query-error=%v", err)
		if err == nil {
			for _, kv := range p.Unwrap() {
				fmt.Fprintf(&sb, " %q=%q", kv.Key, kv.Value)
			}
		}
		v, err := req.Query.Get("a")
		fmt.Fprintf(&sb, " a=%q,%v", v, err)
	}
	if strings.Contains(req.Headers.Value("x-look"), "c") {
		jar, err := req.Cookies()
		fmt.Fprintf(&sb, " cookie-error=%v", err)
		if err == nil {
			for _, kv := range jar.Unwrap() {
				fmt.Fprintf(&sb, " %q=%q", kv.Key, kv.Value)
			}
		}
	}
	return sb.String()
}

func act(tt **trace, r *Run) inbuilt.Handler {
	return func(req *http.Request) *http.Response {
		t := *tt
		seen := look(req)
		acts := req.Headers.Value("x-act")
		mode := req.Headers.Value("x-body")
		body, berr := ReadBody(req, mode)
		if mode == "one-piece" {
			body = nil // how much it is depends on the delivery
		}
		if berr != nil {
			seen += " body error " + berr.Error()
		} else {
			seen += fmt.Sprintf(" body %q", body)
		}
		if again := req.Headers.Value("x-again"); again != "" && berr == nil && mode != "one-piece" && !strings.HasPrefix(mode, "partial") {
			// reading what was read already
			_ = req.Body.Discard()
			body, berr := ReadBody(req, again)
			seen += fmt.Sprintf(" and again (%s) %q %v", again, body, berr)
			r.Count("read_again", 1)
		}
		t.calls = append(t.calls, seen)
		if strings.Contains(acts, "x") {
			// traces a handler may leave in the request
			req.Ctx = context.WithValue(req.Ctx, CtxKey{}, "trace")
			req.Env.Error = errors.New("trace")
			req.Env.AllowedMethods = "trace"
			req.Env.AliasFrom = "/trace"
			req.Params.Add("trace", "trace")
			req.Headers.Add("Trace", "trace")
			req.ContentType = "trace/trace"
		}
		resp := req.Respond()
		for i := 0; i < len(acts); i++ {
			switch acts[i] {
			case 'h':
				resp.Header("X-Own", "1", "2").Header("x-default-a", "own")
			case 'c':
				resp.Cookie(cookie.New("n", "v"), cookie.Build("m", "w").Path("/p").Expires(time.Unix(1e9, 0)).HttpOnly(true).Cookie())
			case 's':
				resp.Code(status.Teapot).Status("Own Text")
			case 'S':
				resp.Status("Fine Indeed")
			case 'C':
				resp.Cookie(cookie.New("single", "one"))
			case 'H':
				resp.Header("Content-Encoding", "own")
			case 'u':
				resp.Code(599)
			case 'n':
				resp.Code(status.NoContent)
			case 't':
				resp.ContentType("own/type")
			case 'b':
				resp.String("body of " + req.Path)
			case 'j':
				resp.JSON(map[string]int{"a": len(body)})
			case 'e':
				resp.Error(errors.New("own error"))
			case 'E':
				resp.Error(status.ErrConflict)
			case 'k':
				resp.Attachment(strings.NewReader("known size"), 10)
			case 'l':
				if req.Proto == proto.HTTP10 {
					resp.Attachment(strings.NewReader("known size"), 10)
				} else {
					resp.Attachment(strings.NewReader("unknown size"), -1)
				}
			case '0':
				return nil
			case 'N':
				return http.NewResponse().String("own response object")
			case 'R':
				panic("handler panics")
			}
		}
		return resp
	}
}

// routers are made once: the order of methods in Allow is fixed per router only
var (
	current *trace
	routers = map[string]router.Router{}
)

func makeRouter(r *Run, tt **trace, kind string) router.Router {
	h := act(tt, r)
	if kind == "simple" {
		return Router{
			Req: func(q *http.Request) *http.Response {
				if strings.Contains(q.Headers.Value("x-act"), "R") {
					return http.Code(q, 500)
				}
				return h(q)
			},
			Err: func(q *http.Request, err error) *http.Response {
				if !errors.Is(err, status.ErrCloseConnection) {
					t := *tt
					t.calls = append(t.calls, "error "+err.Error())
				}
				return http.Error(q, err).String("error: " + err.Error())
			},
		}
	}
	rt := inbuilt.New().Use(middleware.Recover)
	if kind == "static" {
		rt.Get("/", h).Post("/", h).Put("/x", h).Get("/x/y", h).Get("/x", h).Alias("/alias", "/x/y").Catch("/catch", h)
	} else {
		rt.Get("/", h).Post("/u/{id}", h).Get("/u/{id}", h).Get("/u/{id}/p/{x}", h).Put("/u/{id}/p/{x}", h).Get("/x/y", h).Get("/m/{a}/{b}/{c}/{d}/{e}/{f}/{g}/{h}/{i}", h).Catch("/catch", h)
	}
	rt.RouteError(func(q *http.Request) *http.Response {
		e := ""
		if q.Env.Error != nil {
			e = q.Env.Error.Error()
		}
		if q.Env.Error != status.ErrCloseConnection {
			t := *tt
			t.calls = append(t.calls, "error handler: "+e+" allowed "+q.Env.AllowedMethods)
		}
		return http.Error(q, q.Env.Error).Header("X-Error", e).Header("Allow", q.Env.AllowedMethods)
	}, inbuilt.AllErrors)
	return rt.Initialize()
}

var paths = []string{"/", "/x", "/x/y", "/x/", "/u/1", "/u/abc%20d", "/u/1/p/2", "/u/7/p/q", "/u", "/alias", "/catch/me", "/catch", "/nope", "/nope/nope", "/u/1/p", "/m/1/2/3/4/5/6/7/8/9"}

func genReq(g *rand.Rand) (wire []byte, method string) {
	o := Gen{Path: Pick(g, paths), Methods: []string{"GET", "GET", "GET", "POST", "POST", "PUT", "HEAD", "DELETE", "TRACE", "OPTIONS"},
		Protos: []string{"HTTP/1.1", "HTTP/1.1", "HTTP/1.1", "HTTP/1.0"}, KeepAlive: true, Chunked: 50, BodyMax: 80, MaxHdrs: 4, NoQuery: true, Both: true, Simple: Chance(g, 50)}
	o.Large = g.Intn(60) == 0
	if Chance(g, 50) {
		o.Path += "?" + Pick(g, []string{"a=1", "a=%zz", "b=2&a=3", "flag", "=x", "", "a=%41+b&c", "a=1&a=2"})
	}
	acts := ""
	for n := g.Intn(5); n > 0; n-- {
		acts += Pick(g, strings.Split("h c s u n t b j e E k l 0 N R x x S C H", " "))
	}
	o.Extra = append(o.Extra, [2]string{"X-Act", acts}, [2]string{"X-Look", Pick(g, []string{"", "q", "c", "qc"})},
		[2]string{"X-Body", Pick(g, append([]string{"none", "none", "partial1", "partial7", "one-piece"}, BodyModes...))})
	if Chance(g, 25) {
		o.Extra = append(o.Extra, [2]string{"X-Again", Pick(g, BodyModes)})
	}
	if Chance(g, 30) {
		o.Extra = append(o.Extra, [2]string{"Cookie", Pick(g, []string{"a=b", "a=b; c=d", "bad", "x=y; ", "=v"})})
	}
	if Chance(g, 15) {
		o.Extra = append(o.Extra, [2]string{"Upgrade", Pick(g, []string{"http/1.1", "websocket", "h2c"})})
	}
	q := o.Next(g)
	return q.Wire, q.Method
}

var malformed = []string{"FOO / HTTP/1.1\r\n\r\n", "GET / HTTP/9.9\r\n\r\n", "GET / HTTP/1.1\r\nbad\r\n\r\n", "GET /%zz HTTP/1.1\r\n\r\n", "GET / HTTP/1.0\r\nContent-Length: x\r\n\r\n",
	"GET  HTTP/1.1\r\n\r\n", "POST /x HTTP/1.1\r\nX-A: b\r\nContent-Length: 1\r\nContent-Length: 2\r\n\r\n", "HEAD /%1 HTTP/1.1\r\n\r\n", " \r\n\r\n",
	"POST / HTTP/1.1\r\nTransfer-Encoding: gzip\r\n\r\n", "GET /x HTTP/1.1\r\nCookie: a\r\n\r", "GET / HTTP/1.0"}

func cfg() config.Config {
	c := config.Default()
	c.Headers.Default = map[string]string{"X-Default-A": "da", "X-Default-B": "db"}
	return c
}

func run(r *Run, c any, kind string, wire []byte, cuts []int, methods []string) trace {
	var t trace
	t.conn = &Conn{In: wire, Cuts: cuts}
	current = &t
	if routers[kind] == nil {
		routers[kind] = makeRouter(r, &current, kind)
	}
	t.ok = ServeEnc(r, "serve", c, cfg(), t.conn, encryption.TLS, routers[kind])
	t.raw = t.conn.Out.String()
	t.resps, t.err = ParseAll([]byte(t.raw), methods)
	return t
}

func history(r *Run, g *rand.Rand, i int) {
	r.Step("history %d", i)
	kind := Pick(g, []string{"simple", "static", "dynamic"})
	n := 2 + g.Intn(5)
	var wires [][]byte
	var methods []string
	for k := 0; k < n; k++ {
		w, m := genReq(g)
		wires, methods = append(wires, w), append(methods, m)
	}
	if Chance(g, 35) {
		m := Pick(g, malformed)
		wires, methods = append(wires, []byte(m)), append(methods, strings.SplitN(m, " ", 2)[0])
	}
	stream := bytes.Join(wires, nil)
	c := map[string]any{"router": kind, "requests": func() (l []string) {
		for _, w := range wires {
			l = append(l, Q(w))
		}
		return l
	}()}
	var cuts []int
	if Chance(g, 50) {
		cuts = RandomCuts(g, len(stream))
	}
	shared := run(r, c, kind, stream, cuts, methods)
	if !shared.ok {
		return
	}
	if shared.err != nil {
		r.Violate("output", c, "malformed output: %v in %q", shared.err, shared.raw)
		return
	}
	callAt, respAt := 0, 0
	for k, w := range wires {
		fresh := run(r, c, kind, w, nil, methods[k:k+1])
		if !fresh.ok {
			return
		}
		if fresh.err != nil {
			r.Violate("output-fresh", c, "malformed output: %v in %q", fresh.err, fresh.raw)
			return
		}
		for _, want := range fresh.calls {
			got := "nothing"
			if callAt < len(shared.calls) {
				got = shared.calls[callAt]
			}
			if got != want {
				r.Violate("request-differs", c, "request %d: handler sees\n%s\non a fresh connection\n%s", k, got, want)
				return
			}
			callAt++
		}
		for _, want := range fresh.resps {
			got := "nothing"
			if respAt < len(shared.resps) {
				got = shared.resps[respAt].Canon()
			}
			if got != want.Canon() {
				r.Violate("response-differs", c, "response to request %d (%q) is\n%s\non a fresh connection\n%s", k, w, got, want.Canon())
				return
			}
			respAt++
			r.Count("responses", 1)
		}
		r.Count("requests", 1)
	}
	if callAt != len(shared.calls) || respAt != len(shared.resps) {
		r.Violate("surplus", c, "%d calls and %d responses on the shared connection, %d and %d on the fresh ones", len(shared.calls), len(shared.resps), callAt, respAt)
	}
	r.Count("histories", 1)
	r.Count(kind, 1)
	r.Eval(kind + string(stream))
	r.Sample("history", c)
}

func main() {
	Main("C03", "histories of 2..7 requests with handler actions on one connection, each compared with fresh connections; distinct by router kind and bytes", func(r *Run) {
		g := r.Rng("histories")
		for i := 0; i < r.N(6000, 250000); i++ {
			history(r, g, i)
		}
		r.Floor("requests", 20000)
		r.Floor("simple", 1000)
		r.Floor("static", 1000)
		r.Floor("dynamic", 1000)
	})
}
