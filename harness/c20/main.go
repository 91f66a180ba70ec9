//go:build go1.22

// Monitor of C20: many concurrent connections use all the features of one application. Every request carries a unique
// token; each response must be exactly the one of its own request and contain no foreign token. Race detector on.
package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/serve"
	"github.com/indigo-web/indigo/http/status"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
	. "github.com/indigo-web/indigo/internal/zzverif/vsrv"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/inbuilt/middleware"
	"github.com/indigo-web/indigo/router/inbuilt/mutator"
	"github.com/indigo-web/indigo/router/virtual"
)

const patience = 100 * time.Second

type ctxKey struct{}

// sink is a logger that remembers lines.
type sink struct {
	mu    sync.Mutex
	lines map[string]int
}

func (s *sink) Printf(f string, v ...any) {
	l := fmt.Sprintf(f, v...)
	s.mu.Lock()
	s.lines[l]++
	s.mu.Unlock()
}

func tokenOf(q *http.Request) string { return q.Headers.Value("x-token") }

func makeRouter(dir, name string, log *sink) *inbuilt.Router {
	r := inbuilt.New()
	r.Use(middleware.Recover, middleware.LogRequests(log), middleware.ServerHeader(name))
	r.Use(middleware.CustomContext(context.WithValue(context.Background(), ctxKey{}, name)))
	r.Use(middleware.Redirect("/moved", "/elsewhere"))
	r.Use(func(next inbuilt.Handler, q *http.Request) *http.Response {
		tok := strings.Clone(tokenOf(q))
		runtime.Gosched()
		resp := next(q)
		if resp == nil {
			resp = q.Respond()
		}
		return resp.Header("X-Echo", tok)
	})
	r.Mutator(mutator.RequestsLog(log))
	r.Get("/user/{id}/post/{post}", func(q *http.Request) *http.Response {
		return q.Respond().String(q.Params.Value("id") + "|" + q.Params.Value("post"))
	})
	r.Get("/user/{id}", func(q *http.Request) *http.Response { return q.Respond().String("user " + q.Params.Value("id")) })
	r.Get("/query", func(q *http.Request) *http.Response {
		a, err := q.Query.Get("a")
		if err != nil {
			return http.Error(q, err)
		}
		b, err := q.Query.Get("b")
		if err != nil {
			return http.Error(q, err)
		}
		return q.Respond().String(a + "/" + b)
	})
	r.Post("/echo", func(q *http.Request) *http.Response {
		b, err := q.Body.Bytes()
		if err != nil {
			return http.Error(q, err)
		}
		return q.Respond().Bytes(b)
	})
	r.Post("/reader", func(q *http.Request) *http.Response {
		b, err := io.ReadAll(q.Body)
		if err != nil {
			return http.Error(q, err)
		}
		return q.Respond().Attachment(bytes.NewReader(b), len(b))
	})
	r.Post("/stream", func(q *http.Request) *http.Response {
		s, err := q.Body.String()
		if err != nil {
			return http.Error(q, err)
		}
		return q.Respond().Attachment(strings.NewReader(strings.Clone(s)), -1)
	})
	r.Post("/ignored", func(q *http.Request) *http.Response { return q.Respond().String("ignored " + tokenOf(q)) })
	r.Post("/json", func(q *http.Request) *http.Response {
		var m struct{ Token, Data string }
		if err := q.JSON(&m); err != nil {
			return http.Error(q, err)
		}
		return q.Respond().JSON(map[string]string{"got": m.Token, "data": m.Data})
	})
	r.Get("/cookies", func(q *http.Request) *http.Response {
		jar, err := q.Cookies()
		if err != nil {
			return http.Error(q, err)
		}
		return q.Respond().Cookie(cookie.New("back", jar.Value("session")), cookie.New("fixed", "1")).String(jar.Value("other"))
	})
	r.Get("/panic", func(q *http.Request) *http.Response { panic("handler of " + name) })
	r.Get("/nil", func(q *http.Request) *http.Response { return nil })
	r.Get("/context", func(q *http.Request) *http.Response { return q.Respond().String(q.Ctx.Value(ctxKey{}).(string)) })
	r.Get("/error", func(q *http.Request) *http.Response {
		return http.Error(q, fmt.Errorf("failure of %s", tokenOf(q)), status.Teapot)
	})
	r.Get("/file", func(q *http.Request) *http.Response { return q.Respond().File(filepath.Join(dir, "file1.html")) })
	r.Get("/moved", http.Respond)
	r.Get("/target", func(q *http.Request) *http.Response { return q.Respond().String("target from " + q.Env.AliasFrom) })
	r.Alias("/alias", "/target")
	r.RouteError(func(q *http.Request) *http.Response {
		return q.Respond().Code(status.NotFound).String("no " + q.Path + " for " + tokenOf(q))
	}, status.NotFound)
	r.Group("/group").Use(func(next inbuilt.Handler, q *http.Request) *http.Response {
		return next(q).Header("X-Group", tokenOf(q))
	}).Static("/static", dir).Resource("/res/{x}").Put(func(q *http.Request) *http.Response { return q.Respond().String("put " + q.Params.Value("x")) })
	r.Catch("/caught", func(q *http.Request) *http.Response { return q.Respond().String("caught " + q.Path) })
	return r
}

type exch struct {
	kind, method, wire, tok string
	code                    int
	body                    string
	any                     bool // the body is not compared
	hdr                     [][2]string
	noEcho                  bool
	last                    bool
	proto                   string
	upgrade                 bool
}

var fileBodies [4][]byte

func gen(g *rand.Rand, tok, host string) exch {
	e := exch{tok: tok, method: "GET", code: 200, proto: "HTTP/1.1"}
	target, body := "/", ""
	var hdrs []string
	chunked := false
	e.kind = Pick(g, []string{"param", "params", "query", "echo", "echo", "reader", "stream", "ignored", "json", "cookies", "panic", "nil", "context", "error", "file", "static", "static", "nostatic",
		"moved", "alias", "404", "405", "trace", "trace", "caught", "head", "put", "badescape", "badquery", "upgrade", "default-404"})
	name := "one"
	if host == "two.example" {
		name = "two"
	}
	switch e.kind {
	case "param":
		target, e.body = "/user/"+tok, "user "+tok
	case "params":
		target, e.body = "/user/"+tok+"a/post/b"+tok, tok+"a|b"+tok
	case "query":
		target, e.body = "/query?a="+tok+"&b=x%20"+tok, tok+"/x "+tok
	case "echo", "reader", "stream":
		target, e.method = "/"+e.kind, "POST"
		body = tok + ":" + Word(g, Alnum, 0, Pick(g, []int{5, 500, 9000})) + ":" + tok
		e.body, chunked = body, Chance(g, 50)
	case "ignored":
		target, e.method, body, e.body = "/ignored", "POST", tok+Word(g, Alnum, 0, 3000), "ignored "+tok
		chunked = Chance(g, 50)
	case "json":
		target, e.method = "/json", "POST"
		data := Word(g, Alnum, 0, 300)
		body = fmt.Sprintf(`{"Token":%q,"Data":%q}`, tok, data)
		e.any = true
		e.hdr = append(e.hdr, [2]string{"Content-Type", "application/json"})
		e.body = tok + "\x00" + data
		hdrs = append(hdrs, "Content-Type: application/json")
	case "cookies":
		target, e.body = "/cookies", "o-"+tok
		hdrs = append(hdrs, "Cookie: session=s-"+tok+"; other=o-"+tok)
		e.hdr = append(e.hdr, [2]string{"Set-Cookie", "back=s-" + tok}, [2]string{"Set-Cookie", "fixed=1"})
	case "panic":
		target, e.code, e.noEcho, e.any = "/panic", 500, true, true
	case "nil":
		target = "/nil"
	case "context":
		target, e.body = "/context", name
	case "error":
		target, e.code, e.body = "/error", 418, "failure of "+tok
	case "file":
		target, e.body = "/file", string(fileBodies[1])
	case "static":
		k := g.Intn(4)
		target, e.body = fmt.Sprintf("/group/static/file%d.html", k), string(fileBodies[k])
		e.hdr = append(e.hdr, [2]string{"X-Group", tok})
	case "nostatic":
		target, e.code, e.any = "/group/static/"+tok, 404, true
		e.hdr = append(e.hdr, [2]string{"X-Group", tok})
	case "moved":
		target, e.code, e.noEcho = "/moved", 307, true
		e.hdr = append(e.hdr, [2]string{"Location", "/elsewhere"})
	case "alias":
		target, e.body = "/alias", "target from /alias"
	case "404":
		target, e.code, e.body = "/none/"+tok, 404, "no /none/"+tok+" for "+tok
	case "default-404":
		target, e.method, e.code, e.body = "/x"+tok, "DELETE", 404, "no /x"+tok+" for "+tok
	case "405":
		target, e.method, e.code, e.any = "/query", "PATCH", 405, true
		e.hdr = append(e.hdr, [2]string{"Allow", "GET"})
	case "trace":
		target, e.method, e.any, e.noEcho = "/user/"+tok+"?q="+tok, "TRACE", true, true
		for k := g.Intn(6); k > 0; k-- {
			hdrs = append(hdrs, "X-Extra: "+tok+Word(g, Alnum, 0, 40))
		}
	case "caught":
		target, e.body = "/caught/"+tok, "caught /caught/"+tok
	case "head":
		target, e.method = "/user/"+tok, "HEAD"
	case "put":
		target, e.method, e.body = "/group/res/"+tok, "PUT", "put "+tok
		e.hdr = append(e.hdr, [2]string{"X-Group", tok})
	case "badescape":
		target, e.code, e.last, e.any, e.noEcho = "/%zz"+tok, 400, true, true, true
	case "badquery":
		target, e.code, e.any = "/query?a="+tok+"&b=%zz"+tok, 400, true
	case "upgrade":
		target, e.body, e.upgrade = "/user/"+tok, "user "+tok, true
		hdrs = append(hdrs, "Upgrade: HTTP/1.1", "Connection: upgrade")
	}
	hdrs = append(hdrs, "X-Token: "+tok, "Host: "+host)
	wire := ""
	if e.method == "POST" {
		if chunked {
			hdrs = append(hdrs, "Transfer-Encoding: chunked")
			wire = string(Chunk(g, []byte(body)))
		} else {
			hdrs = append(hdrs, fmt.Sprintf("Content-Length: %d", len(body)))
			wire = body
		}
	}
	g.Shuffle(len(hdrs), func(i, j int) { hdrs[i], hdrs[j] = hdrs[j], hdrs[i] })
	e.wire = e.method + " " + target + " HTTP/1.1\r\n" + strings.Join(hdrs, "\r\n") + "\r\n\r\n" + wire
	e.hdr = append(e.hdr, [2]string{"X-Default", "value"})
	if !e.noEcho {
		e.hdr = append(e.hdr, [2]string{"X-Echo", tok})
	}
	if e.kind != "badescape" && e.kind != "trace" && e.kind != "panic" {
		e.hdr = append(e.hdr, [2]string{"Server", name})
	}
	return e
}

var tokenRE = regexp.MustCompile(`tok[0-9]+x[0-9]+e`)

func judge(e exch, resp Resp) error {
	text := fmt.Sprint(resp.Code, resp.Reason, resp.Headers) + string(resp.Body)
	for _, t := range tokenRE.FindAllString(text, -1) {
		if t != e.tok {
			return fmt.Errorf("contains the foreign token %s", t)
		}
	}
	if resp.Code != e.code {
		return fmt.Errorf("code %d, expected %d (%s)", resp.Code, e.code, Q(resp.Body))
	}
	for _, h := range e.hdr {
		ok := false
		for _, v := range resp.Get(h[0]) {
			ok = ok || v == h[1]
		}
		if !ok {
			return fmt.Errorf("header %s is %q, expected %q", h[0], resp.Get(h[0]), h[1])
		}
	}
	if e.noEcho && e.kind != "badescape" && len(resp.Get("X-Echo")) > 0 {
		return fmt.Errorf("unexpected X-Echo")
	}
	if e.kind != "cookies" && len(resp.Get("Set-Cookie")) > 0 {
		return fmt.Errorf("unexpected cookies %q", resp.Get("Set-Cookie"))
	}
	switch {
	case e.kind == "json":
		parts := strings.SplitN(e.body, "\x00", 2)
		a := fmt.Sprintf(`{"got":%q,"data":%q}`, parts[0], parts[1])
		b := fmt.Sprintf(`{"data":%q,"got":%q}`, parts[1], parts[0])
		if s := string(resp.Body); s != a && s != b {
			return fmt.Errorf("body %s, expected %s", Q(resp.Body), Q(a))
		}
	case e.kind == "trace":
		// the echo must contain the request line and every header sent
		for _, l := range strings.Split(strings.SplitN(e.wire, "\r\n\r\n", 2)[0], "\r\n") {
			if !strings.Contains(string(resp.Body), l+"\r\n") {
				return fmt.Errorf("the echo lacks %q: %s", l, Q(resp.Body))
			}
		}
		if n := strings.Count(string(resp.Body), "TRACE "); n != 1 {
			return fmt.Errorf("the echo is not one request: %s", Q(resp.Body))
		}
	case !e.any && e.method != "HEAD":
		if string(resp.Body) != e.body {
			return fmt.Errorf("body %s, expected %s", Q(resp.Body), Q(e.body))
		}
	}
	return nil
}

// script are the exchanges of one client.
func script(g *rand.Rand, id, n int, host string) (es []exch) {
	for k := 0; k < n; k++ {
		e := gen(g, fmt.Sprintf("tok%dx%de", id, k), host)
		es = append(es, e)
		if e.last {
			break
		}
	}
	return es
}

func report(r *Run, mode string, es []exch, i int, err error, out string) {
	r.Violate(mode+"/"+es[i].kind, map[string]any{"request": Q(es[i].wire), "index": i, "response": out}, "%s request of a concurrent client: %v", es[i].kind, err)
}

// inMemory runs a pipelined script over a scripted connection.
func inMemory(r *Run, g *rand.Rand, rt router.Router, cfg config.Config, es []exch) {
	var wire bytes.Buffer
	var ms []string
	for _, e := range es {
		wire.WriteString(e.wire)
		ms = append(ms, e.method)
	}
	conn := &Conn{In: wire.Bytes(), Cuts: RandomCuts(g, wire.Len())}
	n := 0
	conn.OnRead = func() {
		if n++; n%7 == 0 {
			runtime.Gosched()
		}
	}
	serve.HTTP1(cfg, conn, encryption.Plain, rt)
	out := conn.Out.Bytes()
	for i, e := range es {
		var resp Resp
		var err error
		if e.upgrade {
			resp, out, err = ParseResponse(out, false)
			if err == nil && resp.Code != 101 {
				err = fmt.Errorf("no 101 but %d", resp.Code)
			}
		}
		if err == nil {
			resp, out, err = ParseResponse(out, e.method == "HEAD")
		}
		if err == nil {
			err = judge(e, resp)
		}
		r.Eval(mode(e.kind) + e.tok)
		if err != nil {
			report(r, "memory", es, i, err, Q(conn.Out.Bytes()))
			return
		}
		r.Count("memory_"+e.kind, 1)
	}
	if len(out) > 0 {
		r.Violate("memory/surplus", nil, "surplus output %s", Q(out))
	}
}

func mode(k string) string { return k + "/" }

// overTCP runs a script over a real connection, sometimes pipelined, sometimes hanging up in the middle.
func overTCP(r *Run, g *rand.Rand, addr string, es []exch) {
	c, err := net.Dial("tcp", addr)
	if err != nil {
		r.Inconclusive("dial: %v", err)
		return
	}
	defer c.Close()
	_ = c.SetDeadline(time.Now().Add(patience))
	br := bufio.NewReaderSize(c, 1<<16)
	for i := 0; i < len(es); {
		k := 1 + g.Intn(3)
		if i+k > len(es) {
			k = len(es) - i
		}
		if es[i].last {
			// the server answers and closes while the rest is still being sent: the answer may get lost
			_, _ = c.Write([]byte(es[i].wire))
			if resp, err := readResp(br, "GET"); err == nil {
				if err = judge(es[i], resp); err != nil {
					report(r, "tcp", es, i, err, fmt.Sprint(resp))
				}
				r.Count("tcp_"+es[i].kind, 1)
			}
			return
		}
		for j := i + 1; j < i+k; j++ {
			if es[j].last {
				k = j - i
			}
		}
		var w bytes.Buffer
		for _, e := range es[i : i+k] {
			w.WriteString(e.wire)
		}
		b := w.Bytes()
		for len(b) > 0 {
			n := 1 + g.Intn(len(b))
			if _, err := c.Write(b[:n]); err != nil {
				report(r, "tcp", es, i, fmt.Errorf("write: %v", err), "")
				return
			}
			b = b[n:]
		}
		for _, e := range es[i : i+k] {
			if e.upgrade {
				if resp, err := readResp(br, "GET"); err != nil || resp.Code != 101 {
					report(r, "tcp", es, i, fmt.Errorf("no 101: %d %v", resp.Code, err), "")
					return
				}
			}
			resp, err := readResp(br, e.method)
			if err == nil {
				err = judge(e, resp)
			}
			r.Eval("tcp" + e.kind + e.tok)
			if err != nil {
				report(r, "tcp", es, i, err, fmt.Sprint(resp))
				return
			}
			r.Count("tcp_"+e.kind, 1)
			i++
		}
		if Chance(g, 3) {
			// hang up in the middle of a request
			_, _ = c.Write([]byte(es[0].wire[:len(es[0].wire)/2]))
			return
		}
	}
}

// readResp reads one response and decodes it with the strict parser.
func readResp(br *bufio.Reader, method string) (Resp, error) {
	var raw bytes.Buffer
	length, chunked := 0, false
	for {
		l, err := br.ReadString('\n')
		if err != nil {
			return Resp{}, fmt.Errorf("read: %v after %s", err, Q(raw.Bytes()))
		}
		raw.WriteString(l)
		low := strings.ToLower(l)
		fmt.Sscanf(low, "content-length: %d", &length)
		chunked = chunked || strings.HasPrefix(low, "transfer-encoding: chunked")
		if l == "\r\n" {
			break
		}
	}
	if method != "HEAD" {
		if chunked {
			for {
				l, err := br.ReadString('\n')
				if err != nil {
					return Resp{}, err
				}
				raw.WriteString(l)
				var n int
				fmt.Sscanf(l, "%x", &n)
				if _, err := io.CopyN(&raw, br, int64(n+2)); err != nil {
					return Resp{}, err
				}
				if n == 0 {
					break
				}
			}
		} else if _, err := io.CopyN(&raw, br, int64(length)); err != nil {
			return Resp{}, err
		}
	}
	resp, rest, err := ParseResponse(raw.Bytes(), method == "HEAD")
	if err == nil && len(rest) > 0 {
		err = fmt.Errorf("surplus %s", Q(rest))
	}
	return resp, err
}

// pipes is a listener of in-memory connections.
type pipes struct {
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
}

func (l *pipes) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}
func (l *pipes) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *pipes) Addr() net.Addr { return &net.TCPAddr{Port: 80} }

// crowd: very many connections are open at once, each of them is served.
func crowd(r *Run, g *rand.Rand, n int) {
	l := &pipes{ch: make(chan net.Conn), done: make(chan struct{})}
	started := make(chan struct{})
	app := indigo.New("127.0.0.1:0").Listen("pipe:1", indigo.Listener{Listen: func(string, string) (net.Listener, error) { return l, nil }}).OnStart(func() { close(started) })
	done := make(chan error, 1)
	go func() {
		done <- app.Serve(inbuilt.New().Get("/tok/{tok}", func(q *http.Request) *http.Response { return http.String(q, q.Params.Value("tok")) }))
	}()
	<-started
	conns := make([]net.Conn, 0, n)
	talk := func(i int, phase string) bool {
		r.Step("crowd %s %d", phase, i)
		c := conns[i]
		_ = c.SetDeadline(time.Now().Add(patience))
		tok := fmt.Sprintf("%s-%d-%s", phase, i, Word(g, Alnum, 3, 9))
		if _, err := io.WriteString(c, "GET /tok/"+tok+" HTTP/1.1\r\n\r\n"); err != nil {
			r.Violate("crowd", map[string]any{"open": len(conns), "connection": i}, "with %d open connections, a request isn't taken: %v", len(conns), err)
			return false
		}
		resp, err := readResp(bufio.NewReader(c), "GET")
		if err != nil || string(resp.Body) != tok {
			r.Violate("crowd", map[string]any{"open": len(conns), "connection": i}, "with %d open connections, the response is %d %q instead of %q: %v", len(conns), resp.Code, resp.Body, tok, err)
			return false
		}
		r.Count("crowd_responses", 1)
		return true
	}
	ok := true
	for i := 0; i < n && ok; i++ {
		a, b := net.Pipe()
		conns = append(conns, b)
		select {
		case l.ch <- a:
		case <-time.After(patience):
			r.Violate("crowd", map[string]any{"open": i}, "with %d open connections, no other one is accepted", i)
			ok = false
			continue
		}
		ok = talk(i, "first")
	}
	for i := 0; i < n && ok; i++ {
		ok = talk(g.Intn(n), "later")
	}
	r.Eval(fmt.Sprint("crowd", n))
	for _, c := range conns {
		_ = c.Close()
	}
	if !ok {
		return
	}
	app.Stop()
	<-done
}

// lateReader asks for a large response to be ended by closing, and begins to read it late.
func lateReader(r *Run, g *rand.Rand, addr string) {
	c, err := net.Dial("tcp", addr)
	if err != nil {
		r.Inconclusive("dial: %v", err)
		return
	}
	defer c.Close()
	_ = c.(*net.TCPConn).SetReadBuffer(32768)
	_ = c.SetDeadline(time.Now().Add(patience))
	k := 2 + g.Intn(2)
	fmt.Fprintf(c, "GET /group/static/file%d.html HTTP/1.1\r\nHost: one.example\r\nConnection: close\r\n\r\n", k)
	time.Sleep(time.Duration(20+g.Intn(40)) * time.Millisecond)
	all, err := io.ReadAll(c)
	_, body, _ := bytes.Cut(all, []byte("\r\n\r\n"))
	if err != nil || !bytes.Equal(body, fileBodies[k]) {
		r.Violate("tcp/late-reader", map[string]any{"expected": len(fileBodies[k]), "received": len(body)}, "a client that reads late receives %d bytes of the body of %d: %v", len(body), len(fileBodies[k]), err)
	}
	r.Eval(fmt.Sprint("late", k))
	r.Count("late_readers", 1)
}

// fixed: a router without dynamic paths (served from a map), whose requests are logged; the paths contain characters
// which have to be escaped.
func fixed(r *Run, g *rand.Rand) {
	log := &sink{lines: map[string]int{}}
	rt := inbuilt.New()
	rt.Use(middleware.LogRequests(log))
	rt.Mutator(mutator.RequestsLog(log))
	page := func(q *http.Request) *http.Response { return q.Respond().String(q.Path + " for " + tokenOf(q)) }
	for _, p := range []string{"/a", "/b", "/c/d"} {
		rt.Get(p, page).Post(p, page)
	}
	rt.Alias("/alias", "/b")
	rt.RouteError(func(q *http.Request) *http.Response {
		return q.Respond().Code(status.NotFound).String(http.Escape(q.Path) + " missing for " + tokenOf(q))
	}, status.NotFound)
	router := rt.Initialize()
	want := map[string]int{}
	cfg := config.Default()
	var wg sync.WaitGroup
	for k := 0; k < 12; k++ {
		var wire bytes.Buffer
		var ms, bodies, reqs []string
		var codes []int
		for i := 0; i < 60; i++ {
			tok := fmt.Sprintf("tok%dx%de", 1000000+k, i)
			m, target, path, body, code := "GET", "/a", "/a", "/a for "+tok, 200
			switch g.Intn(6) {
			case 0:
				m, target, path, body = "POST", "/c/d", "/c/d", "/c/d for "+tok
			case 1:
				target, path, body = "/alias", "/b", "/b for "+tok
			case 2:
				m, target, path, body, code = "PUT", "/b", "/b", "", 405
			case 3, 4:
				x := Word(g, Alnum, 0, 20)
				target = "/" + x + "%0a" + tok + "%09%07"
				path = "/" + x + `\n` + tok + `\t\a`
				body, code = path+" missing for "+tok, 404
			}
			fmt.Fprintf(&wire, "%s %s HTTP/1.1\r\nHost: x\r\nX-Token: %s\r\n\r\n", m, target, tok)
			ms, bodies, codes, reqs = append(ms, m), append(bodies, body), append(codes, code), append(reqs, m+" "+target)
			seen := path
			if target == "/alias" {
				seen = "/alias"
			}
			want[m+" "+seen]++
			want[fmt.Sprintf("%s %s %d", m, path, code)]++
		}
		conn := &Conn{In: wire.Bytes(), Cuts: RandomCuts(g, wire.Len())}
		wg.Add(1)
		go func() {
			defer wg.Done()
			n := 0
			conn.OnRead = func() {
				if n++; n%5 == 0 {
					runtime.Gosched()
				}
			}
			serve.HTTP1(cfg, conn, encryption.Plain, router)
			rs, err := ParseAll(conn.Out.Bytes(), ms)
			if err != nil || len(rs) != len(ms) {
				r.Violate("fixed/responses", nil, "%d of %d responses (%v)", len(rs), len(ms), err)
				return
			}
			for i, resp := range rs {
				r.Eval("fixed" + reqs[i])
				if resp.Code != codes[i] || (codes[i] != 405 && string(resp.Body) != bodies[i]) {
					r.Violate("fixed/response", map[string]any{"request": reqs[i]}, "response %d %s, expected %d %s", resp.Code, Q(resp.Body), codes[i], Q(bodies[i]))
				}
			}
			r.Count("fixed_responses", int64(len(rs)))
		}()
	}
	wg.Wait()
	for l, n := range want {
		if log.lines[l] != n {
			r.Violate("fixed/log", map[string]any{"line": Q(l)}, "the line %s was logged %d times for %d requests of concurrent clients", Q(l), log.lines[l], n)
			break
		}
	}
	for l := range log.lines {
		// mutators also see the errors which no request belongs to (the end of the connection)
		if want[l] == 0 && !strings.HasPrefix(l, "Unknown ") {
			r.Violate("fixed/log", map[string]any{"line": Q(l)}, "the line %s was logged, but there is no such request", Q(l))
			break
		}
	}
	r.Count("fixed_lines", int64(len(log.lines)))
}

func main() {
	Main("C20", "concurrent clients (in memory and over TCP) x random scripts over all features, unique tokens, under the race detector", func(r *Run) {
		g := r.Rng("clients")
		dir := filepath.Join(r.Scratch, "static")
		if err := os.MkdirAll(dir, 0o755); err != nil {
			r.Inconclusive("%v", err)
			return
		}
		for i := range fileBodies {
			fileBodies[i] = []byte(fmt.Sprintf("file %d ", i) + strings.Repeat(Word(g, Alnum, 5, 5), []int{1, 40, 3000, 30000}[i]))
			if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("file%d.html", i)), fileBodies[i], 0o644); err != nil {
				r.Inconclusive("%v", err)
				return
			}
		}
		var ids atomic.Int64
		for round := 0; round < r.N(12, 120) && !r.Failed(); round++ {
			log := &sink{lines: map[string]int{}}
			var fab router.Fabric
			hosts := []string{"one.example"}
			if round%2 == 0 {
				fab = makeRouter(dir, "one", log)
			} else {
				hosts = []string{"one.example", "two.example", "WWW.one.example:80"}
				fab = virtual.New().Host("www.one.example", makeRouter(dir, "one", log)).Host("two.example", makeRouter(dir, "two", log)).Default(makeRouter(dir, "one", log))
			}
			cfg := config.Default()
			cfg.Headers.Default = map[string]string{"X-Default": "value", "X-Default-2": "another"}
			clients := 16
			run := func(f func(gg *rand.Rand, es []exch)) {
				var wg sync.WaitGroup
				for k := 0; k < clients; k++ {
					gg := rand.New(rand.NewSource(g.Int63()))
					es := script(gg, int(ids.Add(1)), r.N(40, 60), hosts[k%len(hosts)])
					wg.Add(1)
					go func() {
						defer wg.Done()
						f(gg, es)
					}()
				}
				wg.Wait()
			}
			if round%3 == 0 {
				r.Step("in memory, round %d", round)
				rt := fab.Initialize()
				run(func(gg *rand.Rand, es []exch) { inMemory(r, gg, rt, cfg, es) })
				continue
			}
			r.Step("over TCP, round %d", round)
			addr := make(chan string, 1)
			started := make(chan struct{})
			app := indigo.New("127.0.0.1:0").Tune(cfg).Listen("127.0.0.1:0", indigo.Listener{Listen: func(n, a string) (net.Listener, error) {
				l, err := net.Listen(n, a)
				if err == nil {
					addr <- l.Addr().String()
				}
				return l, err
			}}).OnStart(func() { close(started) })
			done := make(chan error, 1)
			go func() { done <- app.Serve(fab) }()
			<-started
			a := <-addr
			var lates sync.WaitGroup
			for k := 0; k < 4; k++ {
				gg := rand.New(rand.NewSource(g.Int63()))
				lates.Add(1)
				go func() {
					defer lates.Done()
					lateReader(r, gg, a)
				}()
			}
			run(func(gg *rand.Rand, es []exch) { overTCP(r, gg, a, es) })
			lates.Wait()
			app.GracefulStop()
			if err := <-done; err != status.ErrGracefulShutdown {
				r.Violate("tcp/serve", nil, "Serve returned %v", err)
			}
			r.Count("connections", int64(clients))
		}
		for i := 0; i < r.N(6, 60) && !r.Failed(); i++ {
			r.Step("fixed %d", i)
			fixed(r, g)
		}
		r.Floor("fixed_responses", 3000)
		r.Floor("fixed_lines", 1000)
		if !r.Failed() {
			crowd(r, g, r.N(1500, 3000))
		}
		r.Floor("crowd_responses", 3000)
		r.Floor("late_readers", 20)
		for _, k := range []string{"param", "echo", "stream", "json", "cookies", "panic", "static", "trace", "404", "upgrade", "error", "context"} {
			r.Floor("memory_"+k, 5)
			r.Floor("tcp_"+k, 20)
		}
	})
}
