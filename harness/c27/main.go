//go:build go1.22

// Monitor of C27: escapes every kind of text and inspects each byte; records every line that request loggers print under
// hostile requests; decodes each response strictly and looks for header lines nobody set.
package main

import (
	"fmt"
	"io"
	"log"
	"math/rand"
	"net/url"
	"os"
	"path/filepath"
	"strings"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/status"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
	. "github.com/indigo-web/indigo/internal/zzverif/vsrv"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/inbuilt/middleware"
	"github.com/indigo-web/indigo/router/inbuilt/mutator"
)

func printable(c byte) bool { return c >= 0x20 && c <= 0x7e }

// checkEscaped tells what is wrong about an escaped text.
func checkEscaped(in, out string) string {
	all := true
	for i := 0; i < len(in); i++ {
		all = all && printable(in[i])
	}
	if all {
		if in != out {
			return "printable text changed"
		}
		return ""
	}
	for i := 0; i < len(out); i++ {
		if !printable(out[i]) {
			return fmt.Sprintf("byte %#x in the output", out[i])
		}
	}
	// every other byte is visible as its own backslash escape
	var want []byte
	for i := 0; i < len(in); i++ {
		if printable(in[i]) {
			want = append(want, in[i])
			continue
		}
		e := byte('?')
		if k := strings.IndexByte("\x00\a\b\t\n\v\f\r", in[i]); k != -1 {
			e = "0abtnvfr"[k]
		}
		want = append(want, '\\', e)
	}
	if out != string(want) {
		return "escapes differ"
	}
	return ""
}

func escape(r *Run, in string) {
	orig := strings.Clone(in)
	var out string
	if !r.Guard("escape", Q(in), func() { out = http.Escape(in) }) {
		return
	}
	r.Eval("e" + in)
	r.Count("escaped", 1)
	if what := checkEscaped(orig, out); what != "" {
		r.Violate("escape/"+strings.Fields(what)[0], Q(in), "%s: %s becomes %s", what, Q(orig), Q(out))
	}
	if in != orig {
		r.Violate("escape/argument", Q(orig), "the argument was modified")
	}
}

func escapes(r *Run, g *rand.Rand) {
	r.Step("escapes")
	escape(r, "")
	for a := 0; a < 256; a++ {
		escape(r, string([]byte{byte(a)}))
		for b := 0; b < 256; b++ {
			escape(r, string([]byte{byte(a), byte(b)}))
			escape(r, string([]byte{'/', byte(a), 'x', byte(b)}))
			escape(r, string([]byte{byte(a), 'x', byte(b), '/'}))
		}
	}
	for n := 0; n < 130; n++ {
		for _, c := range []byte{'\n', '\r', 0, 0x1f, 0x7f, 0x80, 0xff, ' ', '~'} {
			for _, pos := range []int{0, n / 2, n} {
				b := []byte(strings.Repeat("a", n+1))
				b[pos] = c
				escape(r, string(b))
			}
		}
		escape(r, strings.Repeat("\n", n))
		escape(r, strings.Repeat("\x7f", n))
		escape(r, strings.Repeat("я", n))
	}
	for i := 0; i < r.N(200000, 3000000); i++ {
		n := g.Intn(Pick(g, []int{3, 10, 30, 60, 200}))
		if i%500 == 0 {
			n = g.Intn(Pick(g, []int{3000, 100000}))
		}
		b := Bytes(g, n)
		if Chance(g, 60) {
			dense := Pick(g, []int{1, 5, 30, 80})
			for j := range b {
				if !Chance(g, dense) {
					b[j] = 0x20 + b[j]%0x5f
				}
			}
		}
		escape(r, string(b))
	}
}

type recorder struct{ lines []string }

func (l *recorder) Printf(f string, v ...any) { l.lines = append(l.lines, fmt.Sprintf(f, v...)) }
func (l *recorder) Write(p []byte) (int, error) {
	l.lines = append(l.lines, string(p))
	return len(p), nil
}

const evil = "X-Injected"

func hostilePath(g *rand.Rand) (path, raw string) {
	switch g.Intn(4) {
	case 0:
		return GenPath(g)
	case 1:
		raw = "/" + Word(g, Alnum, 0, 4) + Pick(g, []string{"%0d%0a", "%0a", "%0d", "%0A%0A", "%00", "%85", "%e2%80%a8", "%1b[2J", "%7f", "%08"}) + evil + ":%20y" +
			Pick(g, []string{"", "%0d%0a%0d%0a", "%0a200", "%0aGET%20/admin%20200"})
	case 2:
		raw = Pick(g, []string{"/", "/text", "/files/a.txt", "/files/none", "/redirect", "/dyn/x", "/only", "/old"})
	case 3:
		raw = Pick(g, []string{"/files/", "/dyn/", "/text/", "/redirect"}) + "%0d%0a" + evil + ":y"
	}
	if g.Intn(100) == 0 {
		raw += Word(g, Alnum, 0, Pick(g, []int{300, 3000, 20000})) + "%0a" + evil
	}
	path, _ = url.PathUnescape(raw)
	return path, raw
}

func loggers(list []*recorder) (ls []middleware.Logger) {
	for _, l := range list {
		ls = append(ls, l)
	}
	return ls
}

type handled struct {
	method, path string
	code         int
}

func requests(r *Run, g *rand.Rand, dir string) {
	enc := Pick(g, []encryption.Token{encryption.Plain, encryption.TLS})
	mw := []*recorder{{}}
	mut := []*recorder{{}}
	for n := g.Intn(Pick(g, []int{1, 3, 20})); n > 0; n-- {
		mw, mut = append(mw, &recorder{}), append(mut, &recorder{})
	}
	// without loggers, the standard one is used
	useStd := Chance(g, 20)
	mutStd := !useStd && Chance(g, 20)
	std := &recorder{}
	var seen []handled
	// the outermost handler of every request: what was answered
	spy := func(next inbuilt.Handler, req *http.Request) *http.Response {
		resp := next(req)
		h := handled{method: req.Method.String(), path: strings.Clone(req.Path), code: 200}
		if resp != nil {
			h.code = int(resp.Reveal().Code)
		}
		seen = append(seen, h)
		return resp
	}
	logger := middleware.LogRequests(loggers(mw)...)
	rlog := mutator.RequestsLog(mut[0])
	switch n := len(mut); {
	case n == 2:
		rlog = mutator.RequestsLog(mut[0], mut[1])
	case n == 3:
		rlog = mutator.RequestsLog(mut[0], mut[1], mut[2])
	case n >= 12:
		mut = mut[:12]
		rlog = mutator.RequestsLog(mut[0], mut[1], mut[2], mut[3], mut[4], mut[5], mut[6], mut[7], mut[8], mut[9], mut[10], mut[11])
	default:
		mut = mut[:1]
	}
	if useStd {
		logger, mw = middleware.LogRequests(), nil
		log.SetFlags(0)
		log.SetOutput(std)
		defer log.SetOutput(io.Discard)
	}
	if mutStd {
		rlog, mut = mutator.RequestsLog(), nil
		log.SetFlags(0)
		log.SetOutput(std)
		defer log.SetOutput(io.Discard)
	}
	rt := inbuilt.New().Use(logger, spy).Mutator(mutator.Alias("/old", "/text"))
	if !useStd {
		rt.Mutator(rlog)
	}
	rt.Use(middleware.Redirect("/redirect", "/text"))
	h := func(code status.Code, text string) inbuilt.Handler {
		return func(req *http.Request) *http.Response { return req.Respond().Code(code).String(text) }
	}
	rt.Get("/", h(200, "root")).Get("/text", h(200, "text")).Post("/text", func(req *http.Request) *http.Response { return nil })
	rt.Get("/dyn/{x}", h(204, ""))
	rt.Get("/only", h(200, "secure"), middleware.HTTPSOnly())
	rt.Static("/files", dir)

	var stream []byte
	var methods, reqs, paths []string
	n := 1 + g.Intn(5)
	for i := 0; i < n; i++ {
		m := Pick(g, []string{"GET", "GET", "POST", "HEAD", "TRACE", "OPTIONS", "DELETE"})
		path, raw := hostilePath(g)
		paths = append(paths, path)
		if Chance(g, 30) {
			raw += "?a=%0d%0a" + evil + ":q&b=" + Word(g, Alnum, 0, 4)
		}
		lines := []string{"Host: " + Pick(g, []string{"a", "a\r" + evil + ": h", "x y", "\x0b" + evil, "ex:1"})}
		for k := g.Intn(4); k > 0; k-- {
			lines = append(lines, Pick(g, []string{
				"Upgrade: HTTP/1.1\r" + evil + ": u", "Cookie: a=b\r" + evil + "=c", "Content-Type: text/html\r" + evil + ": t",
				"X-Any: \r" + evil + ": v", "Origin: http://" + evil, "Referer: " + evil, "Accept: */*\x00" + evil, "Connection: keep-alive",
			}))
		}
		methods = append(methods, m)
		reqs = append(reqs, m+" "+raw)
		stream = fmt.Appendf(stream, "%s %s HTTP/1.1\r\n%s\r\n\r\n", m, raw, strings.Join(lines, "\r\n"))
	}
	conn := &Conn{In: stream}
	if Chance(g, 40) {
		conn.Cuts = RandomCuts(g, len(stream))
	}
	c := map[string]any{"stream": Q(stream), "encryption": enc}
	r.Step("requests %v", c)
	if !ServeEnc(r, "requests", c, config.Default(), conn, enc, rt.Initialize()) {
		return
	}
	r.Eval(fmt.Sprint(c))
	// the response side
	rs, err := ParseAll(conn.Out.Bytes(), methods)
	if err != nil {
		r.Violate("response/malformed", c, "%v in %s", err, Q(conn.Out.Bytes()))
		return
	}
	final := 0
	for _, resp := range rs {
		if resp.Code >= 200 {
			final++
		}
		for _, h := range resp.Headers {
			switch strings.ToLower(h[0]) {
			case "content-type", "content-length", "allow", "location", "accept-encodings", "connection", "upgrade", "transfer-encoding":
			default:
				r.Violate("response/header", c, "the response has the header %q nobody set: %s", h, Q(conn.Out.Bytes()))
				return
			}
			r.Count("headers", 1)
		}
		if strings.Contains(resp.Reason, evil) {
			r.Violate("response/reason", c, "reason %q", resp.Reason)
		}
	}
	if final != n {
		r.Violate("response/count", c, "%d responses to %d requests %q: %s", final, n, reqs, Q(conn.Out.Bytes()))
		return
	}
	// the log side; the end of the connection is reported to the error handlers too, with a code of its own
	var want []handled
	for _, h := range seen {
		if h.code != int(status.CloseConnection) {
			want = append(want, h)
		}
	}
	lists := mw
	if useStd {
		lists = []*recorder{std}
	}
	for _, l := range lists {
		if len(l.lines) != len(want) {
			r.Violate("log/count", c, "%d lines for %d requests: %q", len(l.lines), len(want), l.lines)
			return
		}
		for i, line := range l.lines {
			if useStd {
				line = strings.TrimSuffix(line, "\n")
			}
			r.Count("log_lines", 1)
			for j := 0; j < len(line); j++ {
				if !printable(line[j]) {
					r.Violate("log/byte", c, "byte %#x in the log line %q", line[j], line)
					return
				}
			}
			h := want[i]
			pre, post := h.method+" ", fmt.Sprintf(" %d", h.code)
			if !strings.HasPrefix(line, pre) || !strings.HasSuffix(line, post) || len(line) < len(pre)+len(post) {
				r.Violate("log/text", c, "%s of %q answered %d is logged as %q", h.method, h.path, h.code, line)
				return
			}
			if what := checkEscaped(h.path, line[len(pre):len(line)-len(post)]); what != "" {
				r.Violate("log/path", c, "%s: the path %q is logged as %q", what, h.path, line)
				return
			}
		}
	}
	if !useStd {
		if mutStd {
			for i := range std.lines {
				std.lines[i] = strings.TrimSuffix(std.lines[i], "\n")
			}
			mut = []*recorder{std}
			r.Count("mutator_standard", 1)
		}
		for _, l := range mut {
			if len(l.lines) < n {
				r.Violate("log/mutator-count", c, "%d lines for %d requests: %q", len(l.lines), n, l.lines)
				return
			}
			for i, line := range l.lines {
				r.Count("mutator_lines", 1)
				for j := 0; j < len(line); j++ {
					if !printable(line[j]) {
						r.Violate("log/byte", c, "byte %#x in the log line %q", line[j], line)
						return
					}
				}
				if i < n && !strings.HasPrefix(line, methods[i]+" ") {
					r.Violate("log/text", c, "request %q is logged as %q", reqs[i], line)
					return
				}
				if i < n {
					want := paths[i]
					if want == "/old" {
						want = "/text"
					}
					text := strings.TrimPrefix(line, methods[i]+" ")
					trimmed := strings.TrimRight(want, "/")
					if trimmed == "" {
						trimmed = "/"
					}
					if a, b := checkEscaped(want, text), checkEscaped(trimmed, text); a != "" && b != "" {
						r.Violate("log/path", c, "%s: the request to %q is logged as %q", a, want, line)
						return
					}
				}
			}
		}
	}
	r.Sample("requests", c)
}

func main() {
	Main("C27", "all 1- and 2-byte texts (three placements), every length up to 130 with each kind of byte, random texts; hostile requests to all self-generated responses", func(r *Run) {
		log.SetOutput(io.Discard)
		dir := filepath.Join(r.Scratch, "files")
		if err := os.MkdirAll(dir, 0o755); err != nil {
			r.Inconclusive("%v", err)
			return
		}
		if err := os.WriteFile(filepath.Join(dir, "a.txt"), []byte("file"), 0o644); err != nil {
			r.Inconclusive("%v", err)
			return
		}
		escapes(r, r.Rng("escapes"))
		g := r.Rng("requests")
		for i := 0; i < r.N(30000, 400000); i++ {
			requests(r, g, dir)
		}
		r.Floor("escaped", 300000)
		r.Floor("log_lines", 30000)
		r.Floor("mutator_lines", 20000)
		r.Floor("mutator_standard", 1000)
		r.Floor("headers", 50000)
	})
}
