//go:build go1.22

// Monitor of C37: TRACE requests of all shapes against the built-in router; the echo in every response is taken apart and
// compared with what was sent.
package main

import (
	"fmt"
	"io"
	"log"
	"math/rand"
	"net/url"
	"strings"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/status"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
	. "github.com/indigo-web/indigo/internal/zzverif/vsrv"
	"github.com/indigo-web/indigo/router/inbuilt"
)

// echo tells what's wrong with the echo of the request.
func echo(q Req, path string, body []byte) string {
	rest, ok := strings.CutPrefix(string(body), "TRACE ")
	if !ok {
		return "no request line"
	}
	found := false
	trim := strings.TrimRight(path, "/")
	if trim == "" {
		trim = "/"
	}
	suffix := " " + q.Proto + "\r\n"
	if q.Query != "" {
		suffix = "?" + q.Query + suffix
	}
	for _, p := range []string{path, trim, (&url.URL{Path: path}).EscapedPath(), (&url.URL{Path: trim}).EscapedPath(), http.Escape(path), http.Escape(trim)} {
		if r, ok := strings.CutPrefix(rest, p+suffix); ok {
			rest, found = r, true
			break
		}
	}
	if !found {
		return "another request line"
	}
	lengths := 0
	head, after, ok := strings.Cut("\r\n"+rest, "\r\n\r\n")
	if !ok || after != "" {
		return "the echo isn't terminated by the empty line"
	}
	var lines []string
	for _, l := range strings.Split(strings.TrimPrefix(head, "\r\n"), "\r\n") {
		if l == "Content-Length: 0" {
			lengths++
			continue
		}
		if l != "" {
			lines = append(lines, l)
		}
	}
	if lengths > 1 {
		return "several content lengths"
	}
	if len(lines) != len(q.Headers) {
		return fmt.Sprintf("%d headers, sent were %d", len(lines), len(q.Headers))
	}
	for i, h := range q.Headers {
		name, value, ok := strings.Cut(lines[i], ":")
		if !ok || name != h[0] || strings.Trim(value, " \t") != h[1] {
			return fmt.Sprintf("header %d is %q, sent was %q", i, lines[i], h)
		}
	}
	return ""
}

func one(r *Run, g *rand.Rand) {
	handled := 0
	h := func(req *http.Request) *http.Response {
		handled++
		return req.Respond().Code(status.Accepted).String("handled")
	}
	rt := inbuilt.New().Get("/", h).Post("/some/path", h).Get("/own", h).Trace("/own", h)
	dynamic := Chance(g, 50)
	if dynamic {
		rt.Put("/d/{x}", h).Get("/d/{x}/tail", h)
	}
	if Chance(g, 30) {
		// errors handlers have no say
		rt.RouteError(func(req *http.Request) *http.Response { return req.Respond().Code(status.Teapot) }, status.MethodNotAllowed)
	}
	var stream []byte
	var reqs []Req
	var paths []string
	var methods []string
	large := g.Intn(100) == 0
	for n := 1 + g.Intn(5); n > 0; n-- {
		raw := Pick(g, []string{"/", "/some/path", "/own", "/some/path/", "/none", "/own/"})
		if dynamic && Chance(g, 60) {
			_, seg := GenPath(g)
			seg = strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(seg, "/", ""), "%2f", ""), "%2F", "")
			if seg == "" {
				seg = "x"
			}
			raw = "/d/" + seg + Pick(g, []string{"", "/tail", "/"})
		}
		path, err := url.PathUnescape(raw)
		if err != nil {
			path, raw = "/", "/"
		}
		gen := Gen{Methods: []string{"TRACE"}, Path: raw, NoBody: Chance(g, 80), KeepAlive: true, Protos: []string{"HTTP/1.1", "HTTP/1.1", "HTTP/1.0"}}
		if large {
			if dynamic && Chance(g, 50) {
				seg := Word(g, Alnum, 1, 20000)
				raw, path = "/d/"+seg, "/d/"+seg
				gen.Path = raw
			}
			for k := g.Intn(150); k > 0; k-- {
				gen.Extra = append(gen.Extra, [2]string{fmt.Sprintf("X-%d", k), Word(g, Alnum, 0, Pick(g, []int{20, 20, 20, 12000}))})
			}
		}
		q := gen.Next(g)
		if large && strings.HasPrefix(string(q.Wire), "TRACE "+raw+" ") && Chance(g, 70) {
			query := Word(g, Alnum+"=&", 1, 30000)
			q.Wire = []byte(strings.Replace(string(q.Wire), raw, raw+"?"+query, 1))
			q.Query = query
			r.Count("large", 1)
		}
		reqs, paths, methods = append(reqs, q), append(paths, path), append(methods, "TRACE")
		stream = append(stream, q.Wire...)
	}
	conn := &Conn{In: stream}
	if Chance(g, 50) {
		conn.Cuts = RandomCuts(g, len(stream))
	}
	c := map[string]any{"stream": Q(stream), "dynamic": dynamic}
	r.Step("trace %v", c)
	cfg := config.Default()
	if large {
		cfg.Headers.Number.Maximal, cfg.Headers.KeySpace.Maximal, cfg.Headers.ValueSpace.Maximal = 1000, 1<<20, 8<<20
		cfg.Headers.MaxValueLength = 1 << 20
	}
	if !Serve(r, "trace", c, cfg, conn, rt.Initialize()) {
		return
	}
	r.Eval(string(stream))
	rs, err := ParseAll(conn.Out.Bytes(), methods)
	if err != nil || len(rs) != len(reqs) {
		r.Violate("responses", c, "%d responses to %d requests (%v): %s", len(rs), len(reqs), err, Q(conn.Out.Bytes()))
		return
	}
	want := 0
	for i, resp := range rs {
		q := reqs[i]
		id := map[string]any{"request": Q(q.Wire), "response": Q(resp.Body), "stream": Q(stream)}
		switch p := strings.TrimRight(paths[i], "/"); {
		case p == "/none":
			if resp.Code != 404 {
				r.Violate("unknown-path", id, "TRACE of an unknown path is answered %d", resp.Code)
			}
			r.Count("unknown", 1)
			continue
		case p == "/own":
			want++
			if resp.Code != 202 || string(resp.Body) != "handled" {
				r.Violate("own-handler", id, "the TRACE handler is not used: %d", resp.Code)
			}
			r.Count("own", 1)
			continue
		}
		if resp.Code != 200 {
			r.Violate("code", id, "TRACE is answered %d", resp.Code)
			return
		}
		if ct := resp.Get("Content-Type"); len(ct) != 1 || ct[0] != "message/http" {
			r.Violate("content-type", id, "the echo has the content type %q", ct)
			return
		}
		if what := echo(q, paths[i], resp.Body); what != "" {
			r.Violate("echo", id, "%s: %s is echoed as %s", what, Q(q.Wire), Q(resp.Body))
			return
		}
		r.Count("echoed", 1)
		r.Count("headers", int64(len(q.Headers)))
		if q.Query != "" {
			r.Count("queries", 1)
		}
	}
	if handled != want {
		r.Violate("handlers", c, "%d handler calls, expected %d", handled, want)
	}
	r.Sample("trace", c)
}

func main() {
	Main("C37", "pipelines of TRACE requests with random targets and headers to static and dynamic routers", func(r *Run) {
		log.SetOutput(io.Discard)
		g := r.Rng("trace")
		for i := 0; i < r.N(20000, 300000); i++ {
			one(r, g)
		}
		r.Floor("echoed", 20000)
		r.Floor("headers", 40000)
		r.Floor("queries", 5000)
		r.Floor("large", 100)
		r.Floor("own", 3000)
		r.Floor("unknown", 2000)
	})
}
