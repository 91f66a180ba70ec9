//go:build go1.22

// Monitor of C17: random host tables; which router got each request of a served connection, compared with a reference
// lookup; the normalization itself exhaustively on short strings.
package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/status"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
	. "github.com/indigo-web/indigo/internal/zzverif/vsrv"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/simple"
	"github.com/indigo-web/indigo/router/virtual"
	"github.com/indigo-web/indigo/router/virtual/internal/domain"
)

// norm is the reference normalization.
func norm(h string) string {
	if len(h) >= 4 && strings.EqualFold(h[:4], "www.") {
		h = h[4:]
	}
	if strings.HasSuffix(h, ":80") {
		h = h[:len(h)-3]
	} else if strings.HasSuffix(h, ":443") {
		h = h[:len(h)-4]
	}
	return h
}

var names = []string{"example.com", "foo.example.com", "example.org", "localhost", "example", "wwwexample.com", "ww.example.com", "com", "10.0.0.1", "[::1]", "[fe80::80]", "example.co", "xexample.com",
	"exam-ple.com", "web", "www2.example.com", "example.com.", "443.example.com", "a", "www.example.com", "www.com", "wWw.org"}

var ports = []string{"", "", "", ":80", ":443", ":8080", ":8443", ":8", ":4430", ":180", ":1443", ":0080", ":800"}

func host(g *rand.Rand) string {
	h := Pick(g, names)
	if Chance(g, 30) {
		h = RandCase(g, "www.") + h
	}
	h += Pick(g, ports)
	if Chance(g, 40) {
		h = RandCase(g, h)
	}
	return h
}

// failure is one call of an error handler.
type failure struct {
	id  string
	err error
}

func fabric(g *rand.Rand, hits *[]string, fails *[]failure, id string) router.Fabric {
	onError := func(req *http.Request) *http.Response {
		*fails = append(*fails, failure{id, req.Env.Error})
		return req.Respond().Error(req.Env.Error).Header("X-Router", id)
	}
	h := func(req *http.Request) *http.Response {
		*hits = append(*hits, id)
		return req.Respond().Header("X-Router", id).String(id)
	}
	if Chance(g, 50) {
		return simple.New(h, onError)
	}
	if Chance(g, 30) {
		rt := inbuilt.New()
		rt.Group("/").Get("", h).Post("/", h)
		rt.Group("/g").Group("/{x}").Get("/y", h)
		return rt.Use(func(next inbuilt.Handler, req *http.Request) *http.Response {
			return next(req).Header("X-Root", id)
		}).RouteError(onError, inbuilt.AllErrors)
	}
	return inbuilt.New().Get("/{x}/{y}", h).Get("/", h).Post("/", h).Use(func(next inbuilt.Handler, req *http.Request) *http.Response {
		return next(req).Header("X-Root", id)
	}).RouteError(onError, inbuilt.AllErrors)
}

func verify(r *Run, g *rand.Rand) {
	v := virtual.New()
	table := map[string]string{}
	var hits, regs []string
	var fails []failure
	var order []string
	var fabrics []router.Fabric
	var ids []string
	hosts := g.Intn(Pick(g, []int{2, 5, 15}))
	many := Chance(g, 1)
	if many {
		hosts = 100 + g.Intn(400)
		r.Count("many_hosts", 1)
	}
	for n := hosts; n > 0; n-- {
		h := host(g)
		if many && Chance(g, 90) {
			h = fmt.Sprintf("h%d.%s%s", g.Intn(10000), Pick(g, names), Pick(g, ports))
		}
		if Chance(g, 3) {
			h = Word(g, Lower+"-", 200, 700) + "." + h
		}
		k := strings.ToLower(norm(h))
		if table[k] != "" {
			continue
		}
		id := "router of " + h
		if len(ids) > 0 && Chance(g, 10) {
			// one router for several hosts
			i := g.Intn(len(ids))
			table[k] = ids[i]
			order, regs = append(order, h), append(regs, h+" as "+ids[i])
			v.Host(h, fabrics[i])
			r.Count("shared", 1)
			continue
		}
		table[k] = id
		order = append(order, h)
		regs = append(regs, h)
		fabrics, ids = append(fabrics, fabric(g, &hits, &fails, id)), append(ids, id)
		v.Host(h, fabrics[len(fabrics)-1])
	}
	def := ""
	switch g.Intn(4) {
	case 0:
		def = "default"
		v.Default(fabric(g, &hits, &fails, def))
	case 1:
		def = "default"
		h := Pick(g, []string{"0.0.0.0", "0.0.0.0:80", "0.0.0.0:8080", "0.0.0.0:443"})
		regs = append(regs, h)
		v.Host(h, fabric(g, &hits, &fails, def))
	}
	var rt router.Router
	c := map[string]any{"hosts": regs, "default": def}
	if !r.Guard("initialize", c, func() {
		rt = v.Initialize()
		if Chance(g, 10) {
			rt = v.Initialize()
		}
	}) {
		return
	}

	type want struct {
		hosts []string
		id    string
		code  int
	}
	var ws []want
	var wire strings.Builder
	type breakage struct {
		line string
		err  error
	}
	broken := breakage{}
	if Chance(g, 50) {
		broken = Pick(g, []breakage{{strings.Repeat("k", 300) + ": v", status.ErrHeaderFieldsTooLarge}, {"no colon here", status.ErrBadRequest}, {"Content-Length: 1x", status.ErrBadRequest}, {"Accept: unfini", status.ErrCloseConnection}})
	}
	total := 25
	var left *want
	for k := 0; k < total; k++ {
		var hs []string
		n := 1
		if Chance(g, 20) {
			n = g.Intn(4)
		}
		for ; n > 0; n-- {
			h := host(g)
			if len(order) > 0 && Chance(g, 60) {
				h = Pick(g, order)
				switch g.Intn(8) {
				case 0:
					h = RandCase(g, h)
				case 1:
					h = RandCase(g, "www.") + norm(h)
				case 2:
					h = norm(h) + Pick(g, ports)
				case 3:
					h = h[:len(h)-1]
				case 4:
					h = "x" + h
				case 5:
					h += "x"
				}
			}
			if h == "" {
				h = "z"
			}
			hs = append(hs, h)
		}
		if len(hs) == 2 && Chance(g, 30) {
			hs[1] = hs[0]
		}
		w := want{hosts: hs, code: 200}
		switch len(hs) {
		case 0:
			w.id = def
			if def == "" {
				w.code = 400
			}
		case 1:
			w.id = table[strings.ToLower(norm(hs[0]))]
			if w.id == "" {
				w.id = def
			} else {
				r.Count("matched", 1)
			}
			if w.id == "" {
				w.code = 421
			}
		default:
			w.code = 400
		}
		last := k == total-1 && broken.line != ""
		if last {
			w.code = -1
		}
		ws = append(ws, w)
		wire.WriteString("GET / HTTP/1.1\r\nX-Forwarded-Host: example.com\r\n")
		for i, h := range hs {
			wire.WriteString(RandCase(g, "Host") + ":" + Pick(g, []string{" ", "", "  "}) + h + "\r\n")
			if i == 0 && Chance(g, 30) {
				wire.WriteString("Accept: x\r\n")
			}
		}
		if last {
			wire.WriteString(broken.line)
			if broken.err == status.ErrCloseConnection {
				// the client leaves, no one is answered
				ws = ws[:len(ws)-1]
				left = &w
				break
			}
			wire.WriteString("\r\n")
		}
		wire.WriteString("\r\n")
	}
	conn := &Conn{In: []byte(wire.String())}
	if !Serve(r, "serve", c, config.Default(), conn, rt) {
		return
	}
	rs, err := ParseAll(conn.Out.Bytes(), nil)
	if err != nil || len(rs) != len(ws) {
		c["stream"] = Q(wire.String())
		r.Violate("responses", c, "%d responses for %d requests (%v)", len(rs), len(ws), err)
		return
	}
	hit := 0
	for i, w := range ws {
		cs := map[string]any{"hosts": regs, "default": def, "request hosts": w.hosts}
		if w.code == -1 {
			// the request is broken after its Host
			cs["line"] = broken.line
			r.Eval(fmt.Sprint(regs, def, w.hosts, broken.line))
			id := strings.Join(rs[i].Get("X-Router"), ",")
			switch {
			case w.id == "":
				if id != "" || rs[i].Code < 400 {
					r.Violate("error-dispatch", cs, "hosts %q, then %.20q: answered %d by %q", w.hosts, broken.line, rs[i].Code, id)
				}
			case len(fails) == 0 || fails[0] != failure{w.id, broken.err}:
				r.Violate("error-dispatch", cs, "hosts %q, then %.20q: error handlers called %v, expected %q with %q", w.hosts, broken.line, fails, w.id, broken.err)
				return
			case id != w.id || rs[i].Code != int(broken.err.(status.HTTPError).Code):
				r.Violate("error-dispatch", cs, "hosts %q, then %.20q: answered %d by %q, expected %d by %q", w.hosts, broken.line, rs[i].Code, id, broken.err.(status.HTTPError).Code, w.id)
				return
			default:
				r.Count("errors_dispatched", 1)
			}
			continue
		}
		r.Eval(fmt.Sprint(regs, def, w.hosts))
		id := strings.Join(rs[i].Get("X-Router"), ",")
		if id != w.id || rs[i].Code != w.code {
			kind := "dispatch"
			if len(w.hosts) != 1 {
				kind = fmt.Sprintf("dispatch/%d-hosts", len(w.hosts))
			}
			r.Violate(kind, cs, "hosts %q: answered %d by %q, expected %d by %q", w.hosts, rs[i].Code, id, w.code, w.id)
			return
		}
		if w.id != "" {
			if x := rs[i].Get("X-Root"); len(x) > 1 || len(x) == 1 && x[0] != w.id {
				r.Violate("middleware", cs, "hosts %q: the middleware of %q left %q", w.hosts, w.id, x)
				return
			}
			if hit >= len(hits) || hits[hit] != w.id {
				r.Violate("calls", cs, "routers called %q, expected %q as call %d", hits, w.id, hit)
				return
			}
			hit++
		}
		r.Count(fmt.Sprint("code_", w.code), 1)
		if w.id == "default" {
			r.Count("defaulted", 1)
		}
		r.Sample(fmt.Sprint(w.code, len(w.hosts)), cs)
	}
	if left != nil && left.id != "" {
		r.Eval(fmt.Sprint(regs, def, left.hosts, broken.line))
		if len(fails) == 0 || fails[0] != (failure{left.id, broken.err}) {
			r.Violate("error-dispatch", map[string]any{"hosts": regs, "default": def, "request hosts": left.hosts}, "hosts %q, then the client leaves: error handlers called %v, expected %q with %q", left.hosts, fails, left.id, broken.err)
			return
		}
		r.Count("departures_dispatched", 1)
	}
	if hit != len(hits) {
		r.Violate("calls", c, "%d handler calls, expected %d", len(hits), hit)
	}
}

func main() {
	Main("C17", "random host tables x Host headers derived from them; normalization of all short strings", func(r *Run) {
		Strings("w.:4803", r.N(6, 7), func(s string) {
			r.Eval("norm" + s)
			if got := domain.Normalize(s); got != norm(s) {
				r.Violate("normalize", s, "host %q normalized to %q, expected %q", s, got, norm(s))
			}
		})
		g := r.Rng("hosts")
		for i := 0; i < 20000; i++ {
			h := host(g)
			r.Eval("norm" + h)
			// letter case is insignificant anyway
			if got := domain.Normalize(h); !strings.EqualFold(got, norm(h)) {
				r.Violate("normalize", h, "host %q normalized to %q, expected %q", h, got, norm(h))
			}
		}
		for i := 0; i < r.N(6000, 80000); i++ {
			r.Step("table %d", i)
			verify(r, g)
		}
		for _, n := range []string{"matched", "code_200", "code_400", "code_421", "defaulted"} {
			r.Floor(n, 1000)
		}
		r.Floor("errors_dispatched", 400)
		r.Floor("departures_dispatched", 100)
	})
}
