//go:build go1.22

// Monitor of C31: the sequence of responses a client sees for sequences of requests with and without upgrades, compared
// with the trace specification (101 in the old protocol, the final response in the new one).
package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/http/status"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
	. "github.com/indigo-web/indigo/internal/zzverif/vsrv"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
)

var supported = map[string]string{"http/1.0": "HTTP/1.0", "HTTP/1.0": "HTTP/1.0", "http/1.1": "HTTP/1.1", "HTTP/1.1": "HTTP/1.1"}

var foreign = []string{"websocket", "TLS/1.0", "HTTP/2.0", "HTTP/3", "http", "HTTP/1", "HTTP/1.", "HTTP/1.2", "HTTP/1.11", "xHTTP/1.1", "HTTP/0.9", "IRC/6.9", "RTA/x11", "", "http/11", "HTTP 1.1", "HTTP/1.1x"}

// genList makes a list of protocols and tells the one to choose.
func genList(g *rand.Rand) (list, chosen string) {
	var tokens []string
	for n := 1 + g.Intn(4); n > 0; n-- {
		if Chance(g, 45) {
			t := Pick(g, []string{"http/1.0", "HTTP/1.0", "http/1.1", "HTTP/1.1"})
			if chosen == "" {
				chosen = supported[t]
			}
			tokens = append(tokens, t)
		} else {
			tokens = append(tokens, Pick(g, foreign))
		}
	}
	for i, t := range tokens {
		if i > 0 {
			list += Pick(g, []string{",", ", ", " ,", " , ", ",\t", " \t,\t "})
		}
		list += t
	}
	if Chance(g, 8) {
		return Pick(g, []string{"h2c", "H2C", "h2c, websocket"}), ""
	}
	return list, chosen
}

type exchange struct {
	req, method, proto, list, chosen string
	kind                             string
	noUpgrade                        bool
	body                             string
}

func respond(req *http.Request, kind string) *http.Response {
	r := req.Respond()
	switch kind {
	case "text":
		return r.String("the text")
	case "nil":
		return nil
	case "headers":
		return r.Header("X-Mine", "1", "2").String("h")
	case "own-connection":
		return r.Header("Upgrade", "something").String("u")
	case "default-overridden":
		return r.Header("X-Default", "overridden").String("d")
	case "cookies":
		return r.Cookie(cookie.New("a", "b")).String("c")
	case "error":
		return http.Error(req, status.ErrForbidden)
	case "204":
		return r.Code(status.NoContent)
	case "304":
		return r.Code(status.NotModified)
	case "status":
		return r.Code(status.Accepted).Status("Own Words").String("s")
	case "sized":
		return r.Attachment(strings.NewReader(strings.Repeat("0123456789", 1000)), 10000)
	case "unsized":
		return r.Attachment(strings.NewReader(strings.Repeat("0123456789", 1000)), -1)
	case "json":
		return r.JSON([]int{1, 2, 3})
	case "body":
		b, _ := req.Body.Bytes()
		return r.Bytes(append([]byte(nil), b...))
	}
	return r
}

func wanted(kind, body string) (code int, text string) {
	switch kind {
	case "text":
		return 200, "the text"
	case "headers":
		return 200, "h"
	case "own-connection":
		return 200, "u"
	case "default-overridden":
		return 200, "d"
	case "cookies":
		return 200, "c"
	case "error":
		return 403, ""
	case "204":
		return 204, ""
	case "304":
		return 304, ""
	case "status":
		return 202, "s"
	case "sized", "unsized":
		return 200, strings.Repeat("0123456789", 1000)
	case "json":
		return 200, "[1,2,3]"
	case "body":
		return 200, body
	case "missing":
		return 404, "\x00"
	}
	return 200, ""
}

var kinds = []string{"text", "nil", "empty", "headers", "own-connection", "default-overridden", "cookies", "error", "204", "304", "status", "sized", "unsized", "json", "body", "missing"}

func one(r *Run, g *rand.Rand) {
	var xs []exchange
	var stream []byte
	var methods, log []string
	inb := Chance(g, 50)
	for n := 1 + g.Intn(6); n > 0; n-- {
		x := exchange{method: Pick(g, []string{"GET", "GET", "POST", "HEAD", "PUT"}), proto: Pick(g, []string{"HTTP/1.1", "HTTP/1.1", "HTTP/1.0"}), kind: Pick(g, kinds)}
		lines := []string{"X-Kind: " + x.kind}
		if Chance(g, 65) {
			x.list, x.chosen = genList(g)
			lines = append(lines, RandCase(g, "Upgrade")+":"+Pick(g, []string{"", " "})+x.list)
			if x.chosen != "" {
				lines = append(lines, RandCase(g, "Connection")+": "+RandCase(g, Pick(g, []string{"upgrade", "upgrade", "keep-alive, upgrade", "upgrade, HTTP2-Settings", "upgrade,close-notify"})))
			}
		} else {
			x.noUpgrade = true
		}
		if x.chosen == "" && x.proto == "HTTP/1.0" {
			lines = append(lines, "Connection: keep-alive")
		}
		final := x.proto
		if x.chosen != "" {
			final = x.chosen
		}
		if final == "HTTP/1.0" && x.kind == "unsized" {
			x.kind, lines[0] = "sized", "X-Kind: sized"
		}
		if !inb && x.kind == "missing" {
			x.kind, lines[0] = "text", "X-Kind: text"
		}
		path := "/"
		if x.kind == "missing" {
			path = "/missing"
		}
		for k := g.Intn(3); k > 0; k-- {
			lines = append(lines, "X-Other: "+Pick(g, []string{"Upgrade: HTTP/1.1", "HTTP/1.0", "upgrade"}))
		}
		body := ""
		if x.method == "POST" || x.method == "PUT" {
			x.body = Word(g, Alnum, 0, 200)
			if Chance(g, 50) {
				lines = append(lines, "Transfer-Encoding: chunked")
				body = string(Chunk(g, []byte(x.body)))
			} else {
				lines = append(lines, fmt.Sprintf("Content-Length: %d", len(x.body)))
				body = x.body
			}
		}
		g.Shuffle(len(lines), func(i, j int) { lines[i], lines[j] = lines[j], lines[i] })
		x.req = fmt.Sprintf("%s %s %s\r\n%s\r\n\r\n%s", x.method, path, x.proto, strings.Join(lines, "\r\n"), body)
		xs = append(xs, x)
		methods = append(methods, x.method)
		stream = append(stream, x.req...)
		log = append(log, Q(x.req))
	}
	conn := &Conn{In: stream}
	switch g.Intn(3) {
	case 0:
		conn.Cuts = RandomCuts(g, len(stream))
	case 1:
		for _, x := range xs {
			conn.Cuts = append(conn.Cuts, len(x.req))
		}
	}
	cfg := config.Default()
	def := map[string]string{}
	if Chance(g, 60) {
		def["X-Default"] = "default"
	}
	if Chance(g, 20) {
		// defaults the 101 has values of its own for
		def["connection"], def["UPGRADE"] = "by default", "default/1"
	}
	if len(def) > 0 {
		cfg.Headers.Default = map[string]string{}
		for k, v := range def {
			cfg.Headers.Default[k] = v
		}
	}
	cfg.HTTP.ResponseBuffSize = Pick(g, []int{1, 50, 1024, 100000})
	c := map[string]any{"requests": log, "inbuilt": inb}
	r.Step("%v", c)
	handled := 0
	h := func(req *http.Request) *http.Response {
		if !inb && handled < len(xs) && strings.TrimSpace(req.Proto.String()) != xs[handled].proto {
			r.Violate("request-protocol", c, "the handler sees request %d as %s, it was sent as %s", handled, req.Proto.String(), xs[handled].proto)
		}
		handled++
		return respond(req, strings.Clone(req.Headers.Value("x-kind")))
	}
	var errs []string
	var rt router.Router = Router{Req: h, Err: func(req *http.Request, err error) *http.Response {
		errs = append(errs, fmt.Sprint(err))
		return req.Respond()
	}}
	if inb {
		rt = inbuilt.New().Get("/", h).Post("/", h).Put("/", h).Initialize()
	}
	if !Serve(r, "upgrade", c, cfg, conn, rt) {
		return
	}
	r.Eval(fmt.Sprint(c))
	if !inb && (handled != len(xs) || len(errs) != 1 || errs[0] != status.ErrCloseConnection.Error()) {
		r.Violate("calls", c, "%d of %d requests handled, errors %q", handled, len(xs), errs)
		return
	}
	rs, err := ParseAll(conn.Out.Bytes(), methods)
	if err != nil {
		r.Violate("output", c, "%v in %s", err, Q(conn.Out.Bytes()))
		return
	}
	for i, x := range xs {
		final := x.proto
		if x.chosen != "" {
			final = x.chosen
			r.Count("upgrades", 1)
			r.Count("upgrade_"+x.proto+"_"+x.chosen, 1)
			if len(rs) == 0 || rs[0].Code != 101 {
				r.Violate("no-101", c, "request %d upgrading to %s gets no 101 response: %s", i, x.chosen, Q(conn.Out.Bytes()))
				return
			}
			sw := rs[0]
			rs = rs[1:]
			if sw.Proto != x.proto {
				r.Violate("101-protocol", c, "the 101 of request %d is in %s, the request in %s", i, sw.Proto, x.proto)
				return
			}
			if u := sw.Get("Upgrade"); len(u) != 1 || !strings.EqualFold(u[0], x.chosen) {
				r.Violate("101-upgrade", c, "the 101 of request %d (%q) names %q, expected %s", i, x.list, u, x.chosen)
				return
			}
			if u := sw.Get("Connection"); len(u) != 1 || !strings.EqualFold(u[0], "upgrade") {
				r.Violate("101-connection", c, "the 101 of request %d has the Connection %q", i, u)
				return
			}
		}
		if len(rs) == 0 {
			r.Violate("no-response", c, "request %d of %d gets no final response: %s", i, len(xs), Q(conn.Out.Bytes()))
			return
		}
		resp := rs[0]
		rs = rs[1:]
		if resp.Code == 101 {
			if x.chosen == "" {
				r.Violate("unexpected-101", c, "request %d (Upgrade %q) gets a 101 response", i, x.list)
			} else {
				r.Violate("two-101", c, "request %d (Upgrade %q) gets more than one 101 response", i, x.list)
			}
			return
		}
		if x.chosen == "" {
			r.Count("no_upgrade", 1)
			if !x.noUpgrade {
				r.Count("foreign", 1)
			}
		}
		if resp.Proto != final {
			r.Violate("protocol", c, "the final response of request %d is in %s, expected %s", i, resp.Proto, final)
			return
		}
		code, text := wanted(x.kind, x.body)
		if x.method == "HEAD" {
			text = ""
		}
		if resp.Code != code || (text != "\x00" && !bytes.Equal(resp.Body, []byte(text))) {
			r.Violate("final", c, "request %d (%s): %d %s, expected %d %s", i, x.kind, resp.Code, Q(resp.Body), code, Q(text))
			return
		}
		wantUpgrade := def["UPGRADE"]
		if x.kind == "own-connection" {
			wantUpgrade = "something"
		}
		if got := strings.Join(resp.Get("Upgrade"), ","); got != wantUpgrade {
			r.Violate("final-headers", c, "the final response of request %d (%s) has Upgrade %q, expected %q", i, x.kind, got, wantUpgrade)
			return
		}
		if got := strings.Join(resp.Get("Connection"), ","); got != def["connection"] {
			r.Violate("final-headers", c, "the final response of request %d (%s) has Connection %q, expected %q", i, x.kind, got, def["connection"])
			return
		}
		wantDefault := def["X-Default"]
		if x.kind == "default-overridden" {
			wantDefault = "overridden"
		}
		if got := strings.Join(resp.Get("X-Default"), ","); got != wantDefault {
			r.Violate("final-headers", c, "the final response of request %d (%s) has X-Default %q, expected %q", i, x.kind, got, wantDefault)
			return
		}
	}
	if len(rs) > 0 {
		r.Violate("extra", c, "%d more responses: %s", len(rs), Q(conn.Out.Bytes()))
		return
	}
	r.Sample("sequence", c)
}

func main() {
	Main("C31", "random sequences of requests x protocol lists x both versions x response kinds x deliveries", func(r *Run) {
		g := r.Rng("sequences")
		for i := 0; i < r.N(60000, 800000); i++ {
			one(r, g)
		}
		r.Floor("upgrades", 30000)
		r.Floor("no_upgrade", 20000)
		r.Floor("foreign", 5000)
		for _, a := range []string{"HTTP/1.0", "HTTP/1.1"} {
			for _, b := range []string{"HTTP/1.0", "HTTP/1.1"} {
				r.Floor("upgrade_"+a+"_"+b, 2000)
			}
		}
	})
}
