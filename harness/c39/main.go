//go:build go1.22

// Monitor of C39: routers that record every call of the server (user-written ones and the simple router), over generated
// connections and whole applications; the log of calls and the bytes sent must follow from the requests sent.
package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	nethttp "net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/proto"
	"github.com/indigo-web/indigo/http/status"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
	. "github.com/indigo-web/indigo/internal/zzverif/vsrv"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/simple"
)

// call is a call of the server, as the router saw it.
type call struct {
	Side   string // request, error
	Method string
	Path   string
	Err    error
	EnvErr error
}

// reply is what the router returns: its kind and what must be received then.
type reply struct {
	Kind, Token string
	Code        int
	Body        string
	Header      string
}

var kinds = []string{"nil", "empty", "text", "bytes", "code", "header", "own", "prebuilt", "error", "json", "big"}

func newReply(g *rand.Rand, i int) reply {
	p := reply{Kind: Pick(g, kinds), Token: fmt.Sprintf("%d-%s", i, Word(g, Alnum, 3, 9)), Code: 200}
	switch p.Kind {
	case "text", "bytes", "own":
		p.Body = "body " + p.Token
	case "code":
		p.Code, p.Body = Pick(g, []int{201, 404, 418, 500, 599, 202}), "coded "+p.Token
	case "header":
		p.Header = "value " + p.Token
	case "prebuilt":
		p.Code, p.Body, p.Header = 203, "made in advance", "shared"
	case "error":
		p.Code = 403
	case "json":
		p.Body = fmt.Sprintf(`{"token":"%s"}`, p.Token)
	case "big":
		p.Body = strings.Repeat(p.Token+".", 3000)
	}
	return p
}

func (p reply) build(q *http.Request, prebuilt *http.Response) *http.Response {
	switch p.Kind {
	case "nil":
		return nil
	case "text", "big":
		return q.Respond().String(p.Body)
	case "bytes":
		return q.Respond().Bytes([]byte(p.Body))
	case "own":
		return http.NewResponse().String(p.Body)
	case "prebuilt":
		return prebuilt
	case "code":
		return q.Respond().Code(status.Code(p.Code)).String(p.Body)
	case "header":
		return q.Respond().Header("X-Token", p.Header)
	case "error":
		return http.Error(q, status.ErrForbidden)
	case "json":
		return http.JSON(q, map[string]string{"token": p.Token})
	}
	return q.Respond()
}

func (p reply) matches(m string, got Resp) error {
	if got.Code != p.Code {
		return fmt.Errorf("the code is %d, want %d", got.Code, p.Code)
	}
	want := p.Body
	if m == "HEAD" {
		want = ""
	}
	if string(got.Body) != want {
		return fmt.Errorf("the body is %s, want %s", Q(got.Body), Q(want))
	}
	if v := strings.Join(got.Get("X-Token"), "|"); v != p.Header {
		return fmt.Errorf("the header is %s, want %s", Q(v), Q(p.Header))
	}
	return nil
}

// ending of a connection: what is sent last, and the error the router must be told.
type ending struct {
	Name, Text string
	Code       status.Code
	Err        error // exactly this one, if not nil
	Answered   bool
}

var errLeft = errors.New("left by a handler")
var errReset = errors.New("reset by a monitor")

var endings = []ending{
	{Name: "eof", Err: status.ErrCloseConnection},
	{Name: "reset", Err: status.ErrCloseConnection},
	{Name: "cut", Text: "GET /cut HTTP/1.1\r\nSome: he", Err: status.ErrCloseConnection},
	{Name: "close", Text: "GET /last HTTP/1.1\r\nConnection: close\r\n\r\n", Err: status.ErrCloseConnection},
	{Name: "1.0", Text: "GET /last HTTP/1.0\r\n\r\n", Err: status.ErrCloseConnection},
	{Name: "method", Text: "BREW /pot HTTP/1.1\r\n\r\n", Code: 501, Answered: true},
	{Name: "protocol", Text: "GET / HTTP/1.9\r\n\r\n", Code: 505, Answered: true},
	{Name: "protocol2", Text: "GET / HTTP/2\r\n\r\n", Code: 505, Answered: true},
	{Name: "escape", Text: "GET /%zz HTTP/1.1\r\n\r\n", Code: 400, Answered: true},
	{Name: "colon", Text: "GET / HTTP/1.1\r\nno colon here\r\n\r\n", Code: 400, Answered: true},
	{Name: "length", Text: "POST / HTTP/1.1\r\nContent-Length: many\r\n\r\n", Code: 400, Answered: true},
	{Name: "coding", Text: "POST / HTTP/1.1\r\nTransfer-Encoding: gzip\r\n\r\n", Code: 400, Answered: true},
	{Name: "key", Text: "GET / HTTP/1.1\r\n" + strings.Repeat("k", 5000) + ": v\r\n\r\n", Code: 431, Answered: true},
	{Name: "headers", Text: "GET / HTTP/1.1\r\n" + strings.Repeat("a: b\r\n", 300) + "\r\n", Code: 431, Answered: true},
	{Name: "uri", Text: "GET /" + strings.Repeat("u", 70000) + " HTTP/1.1\r\n\r\n", Code: 414, Answered: true},
	{Name: "body", Text: "POST /last HTTP/1.1\r\nContent-Length: 100\r\n\r\nonly this", Err: status.ErrCloseConnection},
	{Name: "chunks", Text: "POST /last HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nabcde\r\nzz\r\n", Err: status.ErrCloseConnection},
	{Name: "large", Text: "POST /last HTTP/1.1\r\nContent-Length: 10000000000000\r\n\r\nonly this", Err: status.ErrCloseConnection},
	{Name: "write", Err: status.ErrCloseConnection},
}

func code(err error) status.Code {
	var h status.HTTPError
	if errors.As(err, &h) {
		return h.Code
	}
	return 0
}

func connection(r *Run, g *rand.Rand, i int) {
	opt := Gen{KeepAlive: true, MaxHdrs: 4, BodyMax: 40}
	n := g.Intn(5)
	end := endings[i%len(endings)]
	if end.Name == "write" && n == 0 {
		n = 1
	}
	var in []byte
	var methods []string
	var reqs []Req
	for k := 0; k < n; k++ {
		q := opt.Next(g)
		reqs = append(reqs, q)
		methods = append(methods, q.Method)
		in = append(in, q.Wire...)
	}
	in = append(in, end.Text...)
	if strings.Contains(end.Text, " /last ") {
		m := strings.SplitN(end.Text, " ", 2)[0]
		reqs = append(reqs, Req{Method: m, Path: "/last"})
		methods = append(methods, m)
		n++
	}
	var replies []reply
	for k := 0; k <= n; k++ {
		replies = append(replies, newReply(g, k))
	}
	prebuilt := http.NewResponse().Code(203).String("made in advance").Header("X-Token", "shared")

	var calls []call
	answer := func(q *http.Request) *http.Response {
		if len(calls) > len(replies) {
			return nil
		}
		return replies[len(calls)-1].build(q, prebuilt)
	}
	leaves := Chance(g, 40)
	onRequest := func(q *http.Request) *http.Response {
		calls = append(calls, call{Side: "request", Method: q.Method.String(), Path: strings.Clone(q.Path), EnvErr: q.Env.Error})
		if leaves {
			// handlers may use the environment for themselves
			q.Env.Error = errLeft
		}
		return answer(q)
	}
	var rt router.Router
	kind := Pick(g, []string{"own", "simple", "simple"})
	if kind == "own" {
		rt = Router{Req: onRequest, Err: func(q *http.Request, err error) *http.Response {
			calls = append(calls, call{Side: "error", Err: err, EnvErr: err})
			return answer(q)
		}}
	} else {
		rt = simple.New(onRequest, func(q *http.Request) *http.Response {
			calls = append(calls, call{Side: "error", Err: q.Env.Error, EnvErr: q.Env.Error})
			return answer(q)
		}).Initialize()
	}
	conn := &Conn{In: in}
	if Chance(g, 70) {
		conn.Cuts = RandomCuts(g, len(in))
	}
	if end.Name == "reset" {
		conn.End = errReset
	}
	if end.Name == "write" {
		conn.FailWrite = 1
	}
	c := map[string]any{"router": kind, "requests": methods, "ending": end.Name, "replies": replies}
	if !Serve(r, "serve", c, config.Default(), conn, rt) {
		return
	}
	c["calls"] = fmt.Sprint(calls)
	seen := n
	if end.Name == "write" {
		seen = 1
	}
	if len(calls) != seen+1 {
		r.Violate("calls", c, "the router was called %d times for %d requests and the end of the connection", len(calls), seen)
		return
	}
	for k, got := range calls[:seen] {
		if got.Side != "request" || got.Method != reqs[k].Method || got.Path != reqs[k].Path || got.EnvErr != nil {
			r.Violate("request", c, "call %d is %+v, the request was %s %s", k, got, reqs[k].Method, Q(reqs[k].Path))
			return
		}
	}
	last := calls[seen]
	if last.Side != "error" || last.Err == nil || (end.Err != nil && last.Err != end.Err) || (end.Err == nil && code(last.Err) != end.Code) {
		r.Violate("error", c, "the last call is %+v, the connection ended by %s", last, end.Name)
		return
	}
	if end.Name == "write" {
		r.Eval(fmt.Sprint(kind, methods, end.Name, i))
		r.Count("write_failures", 1)
		return
	}
	want := n
	if end.Answered {
		want++
	}
	errMethod := ""
	if end.Answered && strings.HasPrefix(end.Text, "HEAD") {
		errMethod = "HEAD"
	}
	got, err := ParseAll(conn.Out.Bytes(), append(methods, errMethod))
	if err != nil || len(got) != want {
		r.Violate("responses", c, "%d responses are sent, want %d (%v): %s", len(got), want, err, Q(conn.Out.Bytes()))
		return
	}
	for k, resp := range got {
		m := ""
		if k < len(methods) {
			m = methods[k]
		}
		if err = replies[k].matches(m, resp); err != nil {
			r.Violate("response", c, "response %d isn't the one the router returned: %v", k, err)
			return
		}
		r.Count("reply_"+replies[k].Kind, 1)
	}
	r.Eval(fmt.Sprint(kind, methods, end.Name, i))
	r.Count("requests", int64(seen))
	r.Count("router_"+kind, 1)
	r.Count("ending_"+end.Name, 1)
}

// fabric is a user-written router constructor.
type fabric struct {
	inits, requests, errs atomic.Int64
	r                     *Run
	mu                    sync.Mutex
	routers               []*numbered
}

type numbered struct {
	f *fabric
	n int64
}

func (f *fabric) Initialize() router.Router {
	n := &numbered{f, f.inits.Add(1)}
	f.mu.Lock()
	f.routers = append(f.routers, n)
	f.mu.Unlock()
	time.Sleep(time.Millisecond)
	return n
}

func (n *numbered) OnRequest(q *http.Request) *http.Response {
	n.f.requests.Add(1)
	return q.Respond().String(fmt.Sprint("router ", n.n, " ", q.Path, " ", q.Proto == proto.HTTP11))
}

func (n *numbered) OnError(q *http.Request, err error) *http.Response {
	n.f.errs.Add(1)
	return q.Respond().Code(418).String(fmt.Sprint("router ", n.n, " ", code(err)))
}

// applications: the router of an application is initialized once for each time it is served, and gets everything.
func applications(r *Run, g *rand.Rand, i int) {
	f := &fabric{r: r}
	ls := 1 + g.Intn(3)
	app := indigo.New("127.0.0.1:0")
	addrs := make([]string, ls)
	for k := range addrs {
		k := k
		app.Listen("127.0.0.1:0", indigo.Listener{Listen: func(network, addr string) (net.Listener, error) {
			l, err := net.Listen(network, addr)
			if err == nil {
				addrs[k] = l.Addr().String()
			}
			return l, err
		}})
	}
	var requests, errs int64
	for life := int64(1); life <= 3; life++ {
		started, done := make(chan struct{}), make(chan error, 1)
		go func() { done <- app.OnStart(func() { close(started) }).Serve(f) }()
		select {
		case <-started:
		case err := <-done:
			r.Violate("serve", nil, "serving fails: %v", err)
			return
		case <-time.After(60 * time.Second):
			r.Inconclusive("the application doesn't start")
			return
		}
		var wg sync.WaitGroup
		for _, addr := range addrs {
			for k := 0; k < 3; k++ {
				bad := Chance(g, 40)
				requests += 2
				errs++ // the end of every connection
				addr := addr
				wg.Add(1)
				go func() {
					defer wg.Done()
					conn, err := net.DialTimeout("tcp", addr, 60*time.Second)
					if err != nil {
						r.Inconclusive("%v", err)
						return
					}
					defer conn.Close()
					_ = conn.SetDeadline(time.Now().Add(60 * time.Second))
					in := bufio.NewReader(conn)
					for q := 0; q < 2; q++ {
						_, _ = fmt.Fprintf(conn, "GET /%d HTTP/1.1\r\n\r\n", q)
						expect(r, in, 200, fmt.Sprintf("router %d /%d true", life, q))
					}
					if bad {
						_, _ = conn.Write([]byte("GET / HTTP/7\r\n\r\n"))
						expect(r, in, 418, fmt.Sprintf("router %d 505", life))
					}
				}()
			}
		}
		wg.Wait()
		app.GracefulStop()
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			r.Inconclusive("the application doesn't stop")
			return
		}
		if n := f.inits.Load(); n != life {
			r.Violate("initialized", nil, "the router was initialized %d times for %d servings", n, life)
			return
		}
		if !r.Failed() && (f.requests.Load() != requests || f.errs.Load() != errs) {
			r.Violate("counted", nil, "the router got %d requests and %d errors, want %d and %d", f.requests.Load(), f.errs.Load(), requests, errs)
			return
		}
		r.Count("servings", 1)
	}
	r.Eval(fmt.Sprint("app", i, ls))
}

func expect(r *Run, in *bufio.Reader, code int, body string) {
	resp, err := nethttp.ReadResponse(in, nil)
	if err != nil {
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			r.Inconclusive("%v", err)
			return
		}
		r.Violate("live", nil, "no response: %v", err)
		return
	}
	text, err := io.ReadAll(resp.Body)
	if err != nil || resp.StatusCode != code || string(text) != body {
		r.Violate("live", nil, "the response is %d %s (%v), want %d %s", resp.StatusCode, Q(text), err, code, Q(body))
	}
}

func main() {
	Main("C39", "recording routers (own and simple) x generated connections x 16 ways to end x 11 kinds of returned responses; applications served repeatedly with a counting router", func(r *Run) {
		g := r.Rng("connections")
		for i := 0; i < r.N(16000, 300000) && !r.Failed(); i++ {
			if i%500 == 0 {
				r.Step("connection %d", i)
			}
			connection(r, g, i)
		}
		for i := 0; i < r.N(25, 300) && !r.Failed(); i++ {
			r.Step("application %d", i)
			applications(r, g, i)
		}
		r.Floor("router_own", 1000)
		r.Floor("router_simple", 1000)
		r.Floor("write_failures", 100)
		r.Floor("servings", 30)
	})
}
