//go:build go1.22

// Monitor of C24: tags every connection with its listener's encryption and compares what each request reports; a client's
// view of what the HTTPS-only middleware answers, together with the log of handler calls.
package main

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"log"
	"math/big"
	"math/rand"
	"net"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/serve"
	"github.com/indigo-web/indigo/http/status"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
	. "github.com/indigo-web/indigo/internal/zzverif/vsrv"
	irouter "github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/inbuilt/middleware"
	"github.com/indigo-web/indigo/router/inbuilt/mutator"
)

var tokens = []encryption.Token{encryption.Plain, encryption.TLS, encryption.Extend, encryption.Extend + 1, 77, 255}

// reports: every request of a connection, and its failures, report the token.
func reports(r *Run, g *rand.Rand) {
	enc := Pick(g, tokens)
	var stream []byte
	n := 1 + g.Intn(6)
	gen := Gen{KeepAlive: true, Chunked: 50, Protos: []string{"HTTP/1.1", "HTTP/1.0"}}
	gen.Large = g.Intn(300) == 0
	if Chance(g, 20) {
		gen.Extra = [][2]string{{"Upgrade", Pick(g, []string{"HTTP/1.1", "HTTP/1.0", "h2c"})}}
	}
	for i := 0; i < n; i++ {
		stream = append(stream, gen.Next(g).Wire...)
	}
	bad := ""
	if Chance(g, 50) {
		bad = Pick(g, []string{"BAD / HTTP/1.1\r\n\r\n", "GET / HTTP/1.1\r\nno colon\r\n\r\n", "GET /%zz HTTP/1.1\r\n\r\n", "GET / HTTP/3.9\r\n\r\n", "GET / HT"})
		stream = append(stream, bad...)
	}
	conn := &Conn{In: stream}
	if Chance(g, 60) {
		conn.Cuts = RandomCuts(g, len(stream))
	}
	c := map[string]any{"stream": Q(stream), "encryption": enc}
	r.Step("reports %v", c)
	var seen, failures []encryption.Token
	ok := ServeEnc(r, "serve", c, config.Default(), conn, enc, Router{
		Req: func(req *http.Request) *http.Response {
			seen = append(seen, req.Env.Encryption)
			if Chance(g, 10) {
				return nil
			}
			if Chance(g, 30) {
				_, _ = req.Body.Bytes()
			}
			return req.Respond().String("x")
		},
		Err: func(req *http.Request, err error) *http.Response {
			failures = append(failures, req.Env.Encryption)
			return http.Error(req, err)
		},
	})
	if !ok {
		return
	}
	r.Eval(fmt.Sprint(c))
	if len(seen) != n {
		r.Violate("handled", c, "%d of %d requests handled", len(seen), n)
		return
	}
	for i, s := range append(seen, failures...) {
		if s != enc {
			r.Violate("token", c, "request %d of a connection with encryption %d reports %d", i, enc, s)
			return
		}
	}
	r.Count("reported", int64(len(seen)))
	r.Count("later_requests", int64(len(seen)-1))
	r.Count("reported_by_errors", int64(len(failures)))
}

// aliases are further aliased paths, which have to be encoded in a location.
var aliases = []string{"/old page", "/50%", "/what?", "/страница", "/a#b", "/line\r\nX-Injected: 1", "/%41", "/tab\t"}

type observed struct {
	handled []string
}

func makeRouter(o *observed, params []middleware.HTTPOnlyParams, dynamic bool) *inbuilt.Router {
	h := func(req *http.Request) *http.Response {
		o.handled = append(o.handled, strings.Clone(req.Path))
		return req.Respond().String("handled")
	}
	rt := inbuilt.New().Use(middleware.HTTPSOnly(params...)).Mutator(mutator.Alias("/old", "/new"))
	for _, from := range aliases {
		rt.Mutator(mutator.Alias(from, "/a/b"))
	}
	rt.Get("/", h).Post("/", h).Get("/new", h).Get("/a/b", h).Put("/a/b", h)
	if dynamic {
		rt.Get("/d/{x}", h)
	}
	rt.Group("/group").Use(func(next inbuilt.Handler, req *http.Request) *http.Response { return next(req) }).Get("/in", h)
	rt.RouteError(h, status.NotFound, status.MethodNotAllowed)
	return rt
}

type hostCase struct {
	value, host string
	free        bool // no particular host is expected
}

func genHost(g *rand.Rand) hostCase {
	switch g.Intn(8) {
	case 0, 1:
		h := Word(g, Lower+Digits, 1, 8) + "." + Word(g, Lower, 2, 4)
		for g.Intn(30) == 0 || len(h) > 15 && len(h) < 240 {
			h = Word(g, Lower+Digits, 1, 60) + "." + h
		}
		return hostCase{value: h, host: h}
	case 2:
		h := Word(g, Alnum, 1, 8)
		return hostCase{value: h + ":" + Word(g, Digits, 1, 5), host: h}
	case 3:
		h := "[" + Pick(g, []string{"::1", "fe80::1", "2001:db8::7"}) + "]"
		if Chance(g, 50) {
			return hostCase{value: h + ":8080", host: h}
		}
		return hostCase{value: h, host: h}
	case 4:
		h := Pick(g, []string{"127.0.0.1", "10.20.30.40"})
		return hostCase{value: h + Pick(g, []string{"", ":80"}), host: h}
	case 5:
		return hostCase{value: "a\rSet-Cookie: x=y", free: true}
	case 6:
		return hostCase{value: Word(g, Alnum, 1, 3) + string(rune(1+g.Intn(8))), free: true}
	}
	v := Word(g, Alnum+"!\"#$%&'()*+,-./;<=>?@\\^_`{|}~ ", 1, 15)
	v = "x" + v + "x"
	return hostCase{value: v, free: true}
}

type expectation struct {
	host   hostCase
	has    bool
	method string
	path   string // decoded, normalised by the router
	raw    string
	proto  string
	kind   string
}

func only(r *Run, g *rand.Rand) {
	enc := encryption.Plain
	if Chance(g, 25) {
		enc = Pick(g, tokens[1:])
	}
	var params []middleware.HTTPOnlyParams
	var p middleware.HTTPOnlyParams
	if Chance(g, 50) {
		if Chance(g, 50) {
			p.RedirectTo = Pick(g, []string{"secure.example.com", "10.1.2.3", "[::1]", "x"})
		}
		if Chance(g, 50) {
			p.Port = Pick(g, []string{"443", "8443", "1"})
		}
		params = append(params, p)
	}
	var exp []expectation
	var stream []byte
	var methods []string
	for n := 1 + g.Intn(5); n > 0; n-- {
		e := expectation{host: genHost(g), has: Chance(g, 85), proto: Pick(g, []string{"HTTP/1.1", "HTTP/1.1", "HTTP/1.0"})}
		e.method = Pick(g, []string{"GET", "GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH"})
		switch g.Intn(6) {
		case 0, 1:
			e.path, e.raw = GenPath(g)
			if g.Intn(100) == 0 {
				long := Word(g, Alnum+"/-._~", 1, Pick(g, []int{500, 30000})) + "z"
				e.path, e.raw = e.path+long, e.raw+long
			}
		case 2:
			e.path = Pick(g, []string{"/", "/a/b", "/new", "/group/in", "/d/value", "/d/%0d%0aX:y"})
			e.raw = e.path
			e.path, _ = url.PathUnescape(e.path)
		case 3:
			e.path, e.raw, e.kind = "/old", "/old", "alias"
			if Chance(g, 50) {
				e.path = Pick(g, aliases)
				e.raw = (&url.URL{Path: e.path}).EscapedPath()
			}
		case 4:
			e.raw = Pick(g, []string{"@evil.example", "1234", "*", "8443/x", "%40evil.example", "foo", ":80"})
			e.path, _ = url.PathUnescape(e.raw)
			e.kind = "no-slash"
		case 5:
			e.raw = "/" + Word(g, Alnum, 0, 5) + "%0d%0aLocation:%20http://evil%0d%0a%0d%0a" + Word(g, Alnum, 0, 5)
			e.path, _ = url.PathUnescape(e.raw)
		}
		if e.raw == "" {
			e.raw = "/"
		}
		exp = append(exp, e)
		methods = append(methods, e.method)
		stream = fmt.Appendf(stream, "%s %s %s\r\n", e.method, e.raw, e.proto)
		lines := []string{"Connection: keep-alive", "X-Y: z"}
		for Chance(g, 50) {
			name, value := Noise(g)
			lines = append(lines, name+": "+value)
		}
		if e.has {
			lines = append(lines, RandCase(g, "Host")+":"+Pick(g, []string{"", " "})+e.host.value)
		}
		g.Shuffle(len(lines), func(i, j int) { lines[i], lines[j] = lines[j], lines[i] })
		stream = append(stream, strings.Join(lines, "\r\n")+"\r\n\r\n"...)
	}
	conn := &Conn{In: stream}
	if Chance(g, 50) {
		conn.Cuts = RandomCuts(g, len(stream))
	}
	c := map[string]any{"stream": Q(stream), "encryption": enc, "params": p}
	r.Step("only %v", c)
	o := &observed{}
	if !ServeEnc(r, "https-only", c, config.Default(), conn, enc, makeRouter(o, params, Chance(g, 50)).Initialize()) {
		return
	}
	r.Eval(fmt.Sprint(c))
	rs, err := ParseAll(conn.Out.Bytes(), methods)
	if err != nil {
		r.Violate("output", c, "%v in %s", err, Q(conn.Out.Bytes()))
		return
	}
	if len(rs) != len(exp) {
		r.Violate("responses", c, "%d responses to %d requests: %s", len(rs), len(exp), Q(conn.Out.Bytes()))
		return
	}
	if enc != encryption.Plain {
		if len(o.handled) != len(exp) {
			r.Violate("encrypted-not-served", c, "%d of %d encrypted requests reached their handlers", len(o.handled), len(exp))
			return
		}
		for i, resp := range rs {
			if resp.Code != 200 || len(resp.Get("Location")) > 0 {
				r.Violate("encrypted-redirected", c, "encrypted request %d is answered %d", i, resp.Code)
			}
		}
		r.Count("encrypted", int64(len(exp)))
		return
	}
	if len(o.handled) > 0 {
		r.Violate("plain-served", c, "plain requests reached the handlers: %q", o.handled)
		return
	}
	for i, e := range exp {
		resp := rs[i]
		loc := resp.Get("Location")
		for _, h := range resp.Headers {
			switch strings.ToLower(h[0]) {
			case "location", "content-type", "content-length", "accept-encodings":
			default:
				r.Violate("injected", c, "response %d has the header %q", i, h)
				return
			}
		}
		if p.RedirectTo == "" && !e.has {
			r.Count("without_host", 1)
			if resp.Code != 400 || len(loc) > 0 {
				r.Violate("without-host", c, "request %d has no Host, answered %d to %q", i, resp.Code, loc)
			}
			continue
		}
		if p.RedirectTo == "" && e.host.free {
			// any host; refusing a malformed one is fine
			r.Count("free_hosts", 1)
			if resp.Code != 400 && resp.Code != 301 {
				r.Violate("free-host", c, "request %d is answered %d", i, resp.Code)
			}
			continue
		}
		if resp.Code != 301 || len(loc) != 1 {
			r.Violate("redirect", c, "request %d is answered %d with the locations %q", i, resp.Code, loc)
			continue
		}
		r.Count("redirected", 1)
		u, err := url.Parse(loc[0])
		if err != nil {
			r.Violate("location", c, "request %d: the location %q is malformed: %v", i, loc[0], err)
			continue
		}
		host := e.host.host
		if p.RedirectTo != "" {
			host = p.RedirectTo
		}
		got := u.Host
		if j := strings.LastIndexByte(got, ':'); j != -1 && !strings.HasSuffix(got, "]") {
			got = got[:j]
		}
		if u.Scheme != "https" || got != host || u.User != nil {
			r.Violate("location-host", c, "request %d to %q is redirected to %q", i, host, loc[0])
			continue
		}
		if port := u.Port(); port != p.Port && !(p.Port == "" && port == "443") {
			r.Violate("location-port", c, "the port must be %q, redirected to %q", p.Port, loc[0])
			continue
		}
		if u.RawQuery != "" || u.Fragment != "" {
			r.Violate("location-encoding", c, "the path %q is redirected to %q", e.path, loc[0])
			continue
		}
		if e.kind == "no-slash" {
			r.Count("no_slash", 1)
			continue
		}
		// the router drops slashes from the end of paths
		if strings.TrimRight(u.Path, "/") != strings.TrimRight(e.path, "/") {
			r.Violate("location-path", c, "the path %q is redirected to %q, i.e. %q", e.path, loc[0], u.Path)
		}
	}
	r.Sample("plain", c)
}

func certificate(dir string) (cert, key string, err error) {
	priv, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		return "", "", err
	}
	t := x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "localhost"}, NotBefore: time.Now().Add(-time.Hour),
		NotAfter: time.Now().Add(time.Hour), DNSNames: []string{"localhost"}}
	der, err := x509.CreateCertificate(crand.Reader, &t, &t, &priv.PublicKey, priv)
	if err != nil {
		return "", "", err
	}
	pk, err := x509.MarshalPKCS8PrivateKey(priv)
	if err != nil {
		return "", "", err
	}
	cert, key = filepath.Join(dir, "c.pem"), filepath.Join(dir, "k.pem")
	if err = os.WriteFile(cert, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o600); err == nil {
		err = os.WriteFile(key, pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: pk}), 0o600)
	}
	return cert, key, err
}

func freePort() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return "127.0.0.1:0"
	}
	defer l.Close()
	return l.Addr().String()
}

// live: an application with plain, TLS and custom listeners, in every order.
func live(r *Run, g *rand.Rand, round int) {
	cert, key, err := certificate(r.Scratch)
	if err != nil {
		r.Inconclusive("%v", err)
		return
	}
	kinds := []string{"plain", "https", "auto", "custom"}
	g.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
	addrs := map[string]string{"new": freePort()}
	var mu sync.Mutex
	handledOnly := map[encryption.Token]int{}
	app := indigo.New(addrs["new"])
	for _, k := range kinds {
		a := freePort()
		addrs[k] = a
		switch k {
		case "plain":
			app.Listen(a)
		case "https":
			app.HTTPS(a, cert, key)
		case "auto":
			app.AutoHTTPS(a)
		case "custom":
			app.Listen(a, indigo.Listener{Handler: func(conn net.Conn, rt irouter.Router) {
				serve.HTTP1(config.Default(), conn, encryption.Extend+7, rt)
			}})
		}
	}
	rt := inbuilt.New()
	rt.Get("/enc", func(req *http.Request) *http.Response {
		return req.Respond().String(fmt.Sprint(req.Env.Encryption))
	})
	rt.Group("/only").Use(middleware.HTTPSOnly()).Get("/x", func(req *http.Request) *http.Response {
		mu.Lock()
		handledOnly[req.Env.Encryption]++
		mu.Unlock()
		return req.Respond().String("secret")
	})
	started := make(chan struct{})
	done := make(chan error, 1)
	go func() { done <- app.OnStart(func() { close(started) }).Serve(rt) }()
	select {
	case <-started:
	case err := <-done:
		r.Count("not_started", 1)
		_ = err // a port was taken meanwhile
		return
	}
	want := map[string]encryption.Token{"new": encryption.Plain, "plain": encryption.Plain, "https": encryption.TLS, "auto": encryption.TLS, "custom": encryption.Extend + 7}
	var wg sync.WaitGroup
	for k, a := range addrs {
		for n := 0; n < 4; n++ {
			wg.Add(1)
			seed := g.Int63()
			go func(k, a string) {
				defer wg.Done()
				g := rand.New(rand.NewSource(seed))
				c := map[string]any{"listener": k, "order": kinds}
				var conn net.Conn
				var err error
				if k == "https" || k == "auto" {
					conn, err = tls.Dial("tcp", a, &tls.Config{InsecureSkipVerify: true})
				} else {
					conn, err = net.Dial("tcp", a)
				}
				if err != nil {
					r.Inconclusive("live: %s: %v", k, err)
					return
				}
				defer conn.Close()
				_ = conn.SetDeadline(time.Now().Add(60 * time.Second))
				in := bufio.NewReader(conn)
				for i := 0; i < 5; i++ {
					path := Pick(g, []string{"/enc", "/only/x"})
					if _, err := fmt.Fprintf(conn, "GET %s HTTP/1.1\r\nHost: localhost\r\n\r\n", path); err != nil {
						r.Inconclusive("live: %v", err)
						return
					}
					resp, err := readOne(in)
					if err != nil {
						r.Violate("live/response", c, "request %d: %v", i, err)
						return
					}
					r.Eval(fmt.Sprint("live", kinds, k, i, path))
					r.Count("live_"+k, 1)
					switch {
					case path == "/enc" && string(resp.Body) != fmt.Sprint(want[k]):
						r.Violate("live/token", c, "request %d through the %s listener reports encryption %s, not %d", i, k, resp.Body, want[k])
					case path == "/only/x" && want[k] == encryption.Plain && resp.Code != 301:
						r.Violate("live/plain-served", c, "request %d through the %s listener is answered %d behind HTTPSOnly", i, k, resp.Code)
					case path == "/only/x" && want[k] != encryption.Plain && string(resp.Body) != "secret":
						r.Violate("live/encrypted-refused", c, "request %d through the %s listener is answered %d behind HTTPSOnly", i, k, resp.Code)
					}
				}
			}(k, a)
		}
	}
	wg.Wait()
	mu.Lock()
	if handledOnly[encryption.Plain] > 0 {
		r.Violate("live/plain-handled", kinds, "%d plain requests reached a handler behind HTTPSOnly", handledOnly[encryption.Plain])
	}
	mu.Unlock()
	app.Stop()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		r.Inconclusive("the application doesn't stop")
	}
}

func readOne(in *bufio.Reader) (Resp, error) {
	var b bytes.Buffer
	for {
		line, err := in.ReadBytes('\n')
		b.Write(line)
		if err != nil {
			return Resp{}, err
		}
		if bytes.HasSuffix(b.Bytes(), []byte("\r\n\r\n")) {
			break
		}
	}
	n := 0
	for _, l := range strings.Split(b.String(), "\r\n") {
		if strings.HasPrefix(strings.ToLower(l), "content-length:") {
			fmt.Sscan(l[len("content-length:"):], &n)
		}
	}
	if _, err := io.CopyN(&b, in, int64(n)); err != nil {
		return Resp{}, err
	}
	resp, rest, err := ParseResponse(b.Bytes(), false)
	if err == nil && len(rest) > 0 {
		err = fmt.Errorf("%d more bytes", len(rest))
	}
	return resp, err
}

func main() {
	Main("C24", "random connections x encryption tokens; random requests, hosts, options behind HTTPS-only; applications with all kinds of listeners", func(r *Run) {
		log.SetOutput(io.Discard)
		g := r.Rng("reports")
		for i := 0; i < r.N(20000, 300000); i++ {
			reports(r, g)
		}
		g = r.Rng("only")
		for i := 0; i < r.N(30000, 400000); i++ {
			only(r, g)
		}
		g = r.Rng("live")
		for i := 0; i < r.N(12, 60); i++ {
			live(r, g, i)
		}
		r.Floor("later_requests", 10000)
		r.Floor("reported_by_errors", 2000)
		r.Floor("encrypted", 2000)
		r.Floor("redirected", 10000)
		r.Floor("without_host", 1000)
		r.Floor("free_hosts", 1000)
		r.Floor("no_slash", 1000)
		for _, k := range []string{"new", "plain", "https", "auto", "custom"} {
			r.Floor("live_"+k, 50)
		}
	})
}
