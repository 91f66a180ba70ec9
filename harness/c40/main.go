//go:build go1.22

// Monitor of C40: several applications of one process, alike but for their configurations, routers and hooks, are served at
// the same time and stopped one after the other; every response, callback and return value must be that of its own application.
package main

import (
	"bufio"
	"fmt"
	"io"
	"math/rand"
	"net"
	nethttp "net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/status"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/inbuilt/mutator"
	"github.com/indigo-web/indigo/router/simple"
	"github.com/indigo-web/indigo/router/virtual"
)

const patience = 60 * time.Second

type world struct {
	r    *Run
	apps []*app

	given bool // up
}

type app struct {
	*indigo.App
	i                   int
	token, router, conf string
	values, bodies      int // limits
	addr                string
	started             chan struct{}
	starts, binds       atomic.Int64
	stops               atomic.Int64
	done                chan error
	down                bool
}

func (a *app) config(g *rand.Rand) config.Config {
	a.values = 200 + 300*g.Intn(20)
	a.bodies = 100 + 1000*g.Intn(20)
	var cfg config.Config
	switch a.conf = Pick(g, []string{"modified", "map", "partial"}); a.conf {
	case "modified":
		cfg = config.Default()
		cfg.Headers.Default["X-App"] = a.token
		cfg.Headers.Default["X-Only-"+a.token] = "1"
	case "map":
		cfg = config.Default()
		cfg.Headers.Default = map[string]string{"X-App": a.token, "X-Only-" + a.token: "1"}
	default:
		cfg.Headers.Default = map[string]string{"X-App": a.token, "X-Only-" + a.token: "1"}
	}
	cfg.Headers.MaxValueLength = a.values
	cfg.Headers.ValueSpace.Maximal = 16384
	cfg.Body.MaxSize = uint(a.bodies)
	return cfg
}

func (a *app) fabric(g *rand.Rand) router.Fabric {
	echo := func(what string) func(*http.Request) *http.Response {
		return func(req *http.Request) *http.Response {
			_, err := req.Body.Bytes()
			if err != nil {
				return req.Respond().Code(413).String("body " + a.token)
			}
			return req.Respond().String(what + " " + a.token + " " + req.Params.Value("name"))
		}
	}
	failed := func(req *http.Request) *http.Response {
		code := status.Code(400)
		if e, ok := req.Env.Error.(status.HTTPError); ok {
			code = e.Code
		}
		return req.Respond().Code(code).String("error " + a.token)
	}
	if a.router == "simple" {
		return simple.New(func(req *http.Request) *http.Response {
			switch {
			case req.Path == "/who":
				return echo("who")(req)
			case req.Path == "/alias":
				return echo("who")(req)
			case req.Path == "/only/"+a.token:
				return echo("only")(req)
			case strings.HasPrefix(req.Path, "/dyn/"):
				return req.Respond().String("dyn " + a.token + " " + req.Path[5:])
			}
			return req.Respond().Code(404).String("error " + a.token)
		}, failed)
	}
	r := inbuilt.New().
		Mutator(mutator.Alias("/alias", "/who")).
		Use(func(next inbuilt.Handler, req *http.Request) *http.Response {
			return next(req).Header("X-Through", a.token)
		}).
		Get("/who", echo("who")).Post("/who", echo("who")).
		Get("/only/"+a.token, echo("only")).
		RouteError(failed, inbuilt.AllErrors)
	if a.router != "static" {
		r.Get("/dyn/{name}", echo("dyn"))
	}
	if a.router == "virtual" {
		return virtual.New().Host("shared.example", r).Default(inbuilt.New().RouteError(func(req *http.Request) *http.Response {
			return req.Respond().Code(404).String("default " + a.token)
		}, inbuilt.AllErrors))
	}
	return r
}

func (w *world) add(g *rand.Rand, i int) {
	a := &app{i: i, token: fmt.Sprintf("t%d%s", i, Word(g, "abcdefgh", 4, 6)), started: make(chan struct{}), done: make(chan error, 1)}
	a.router = Pick(g, []string{"static", "dynamic", "virtual", "simple"})
	cfg := a.config(g)
	a.App = indigo.New("127.0.0.1:0").Tune(cfg)
	a.Listen("127.0.0.1:0", indigo.Listener{Listen: func(network, addr string) (net.Listener, error) {
		l, err := net.Listen(network, addr)
		if err == nil {
			a.addr = l.Addr().String()
		}
		return l, err
	}})
	a.OnStart(func() { a.starts.Add(1); close(a.started) }).OnStop(func() { a.stops.Add(1) }).OnBind(func(string) { a.binds.Add(1) })
	f := a.fabric(g)
	go func() { a.done <- a.Serve(f) }()
	w.apps = append(w.apps, a)
}

type client struct {
	w    *world
	a    *app
	conn net.Conn
	in   *bufio.Reader
}

func (a *app) dial(w *world) *client {
	conn, err := net.DialTimeout("tcp", a.addr, patience)
	if err != nil {
		w.r.Violate("refused", w.plan(), "application %d doesn't accept connections: %v", a.i, err)
		return nil
	}
	_ = conn.SetDeadline(time.Now().Add(patience))
	return &client{w, a, conn, bufio.NewReader(conn)}
}

func (w *world) plan() any {
	var list []string
	for _, a := range w.apps {
		list = append(list, fmt.Sprintf("%s router=%s config=%s values=%d bodies=%d down=%v", a.token, a.router, a.conf, a.values, a.bodies, a.down))
	}
	return list
}

// ask sends a request and checks that the response is the application's own.
func (c *client) ask(method, path, extra, body string, code int, want string) bool {
	a, r := c.a, c.w.r
	_ = c.conn.SetDeadline(time.Now().Add(patience))
	fmt.Fprintf(c.conn, "%s %s HTTP/1.1\r\nHost: shared.example\r\n%sContent-Length: %d\r\n\r\n%s", method, path, extra, len(body), body)
	resp, err := nethttp.ReadResponse(c.in, nil)
	if err != nil {
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			r.Inconclusive("%v", err)
			return false
		}
		r.Violate("no-response", c.w.plan(), "%s %s at application %d: %v", method, path, a.i, err)
		return false
	}
	text, err := io.ReadAll(resp.Body)
	what := fmt.Sprintf("%s %s at %s", method, path, a.token)
	if err != nil || resp.StatusCode != code || string(text) != want {
		r.Violate("response", c.w.plan(), "%s is answered by %d %s (%v), want %d %s", what, resp.StatusCode, Q(text), err, code, Q(want))
		return false
	}
	if got := strings.Join(resp.Header.Values("X-App"), "|"); got != a.token {
		r.Violate("default-header", c.w.plan(), "%s: the default header is %s", what, Q(got))
		return false
	}
	for k := range resp.Header {
		if strings.HasPrefix(strings.ToLower(k), "x-only-") && !strings.EqualFold(k, "x-only-"+a.token) {
			r.Violate("default-header", c.w.plan(), "%s has the default header %s of another application", what, k)
			return false
		}
	}
	if got := strings.Join(resp.Header.Values("X-Through"), "|"); (a.router == "simple") != (got == "") || (got != "" && got != a.token) {
		r.Violate("middleware", c.w.plan(), "%s went through the middleware of %s", what, Q(got))
		return false
	}
	r.Count("requests", 1)
	return true
}

func (c *client) talk(g *rand.Rand, n int) bool {
	a := c.a
	for ; n > 0; n-- {
		ok := true
		switch g.Intn(7) {
		case 0:
			ok = c.ask("GET", "/who", "", "", 200, "who "+a.token+" ")
		case 1:
			ok = c.ask("GET", "/alias", "", "", 200, "who "+a.token+" ")
		case 2:
			b := Pick(g, c.w.apps)
			if b == a {
				ok = c.ask("GET", "/only/"+b.token, "", "", 200, "only "+a.token+" ")
			} else {
				ok = c.ask("GET", "/only/"+b.token, "", "", 404, "error "+a.token)
			}
		case 3:
			name := Word(g, Alnum, 1, 9)
			if a.router == "static" {
				ok = c.ask("GET", "/dyn/"+name, "", "", 404, "error "+a.token)
			} else {
				ok = c.ask("GET", "/dyn/"+name, "", "", 200, "dyn "+a.token+" "+name)
			}
		case 4: // just below the own limit, above those of others maybe
			ok = c.ask("GET", "/who", "X-Long: "+strings.Repeat("v", a.values-10)+"\r\n", "", 200, "who "+a.token+" ")
		case 5:
			ok = c.ask("POST", "/who", "", strings.Repeat("b", a.bodies), 200, "who "+a.token+" ")
		case 6:
			ok = c.ask("GET", "/none", "", "", 404, "error "+a.token)
		}
		if !ok {
			return false
		}
	}
	return true
}

// exceed asks for more than the own limits allow, which ends the connection.
func (c *client) exceed(g *rand.Rand) bool {
	c.w.r.Count("exceeded", 1)
	if Chance(g, 50) {
		return c.ask("GET", "/who", "X-Long: "+strings.Repeat("v", c.a.values+10)+"\r\n", "", 431, "error "+c.a.token)
	}
	return c.ask("POST", "/who", "", strings.Repeat("b", c.a.bodies+1), 413, "body "+c.a.token)
}

// returned waits until a stopped application returns; none of the others may.
func (w *world) returned(a *app, want error, clients [][]*client) bool {
	hangUp := time.Now().Add(patience / 4)
	for end := time.Now().Add(patience); time.Now().Before(end); {
		if time.Now().After(hangUp) {
			// another one may wait for its clients before it returns
			for _, list := range clients {
				for _, c := range list {
					c.conn.Close()
				}
			}
		}
		select {
		case err := <-a.done:
			if err != want {
				w.r.Violate("return", w.plan(), "application %d returns %v, want %v", a.i, err, want)
				return false
			}
			return true
		case <-time.After(20 * time.Millisecond):
		}
		for _, b := range w.apps {
			if b.down {
				continue
			}
			select {
			case err := <-b.done:
				b.done <- err
				w.r.Violate("stopped-too", w.plan(), "application %d returns %v when application %d is stopped", b.i, err, a.i)
				return false
			default:
			}
		}
	}
	w.r.Inconclusive("a stopped application doesn't return")
	w.given = true
	return false
}

func round(r *Run, g *rand.Rand, i int) (goOn bool) {
	w := &world{r: r}
	for k := 2 + g.Intn(3); k > 0; k-- {
		w.add(g, len(w.apps))
	}
	r.Step("round %d", i)
	for _, a := range w.apps {
		select {
		case <-a.started:
		case err := <-a.done:
			r.Violate("serve", w.plan(), "application %d ends by itself: %v", a.i, err)
			return false
		case <-time.After(patience):
			r.Inconclusive("an application doesn't start")
			return false
		}
	}
	clients := make([][]*client, len(w.apps))
	for left := len(w.apps); left > 0 && !r.Failed(); left-- {
		var wg sync.WaitGroup
		for _, a := range w.apps {
			if a.down {
				continue
			}
			for len(clients[a.i]) < 3 {
				c := a.dial(w)
				if c == nil {
					return false
				}
				clients[a.i] = append(clients[a.i], c)
			}
			for k, c := range clients[a.i] {
				c, cg, last := c, rand.New(rand.NewSource(g.Int63())), k == 2
				wg.Add(1)
				go func() {
					defer wg.Done()
					if c.talk(cg, 4+cg.Intn(8)) && last {
						c.exceed(cg)
					}
				}()
			}
		}
		wg.Wait()
		for _, a := range w.apps {
			if n := len(clients[a.i]); n == 3 {
				clients[a.i][2].conn.Close()
				clients[a.i] = clients[a.i][:2]
			}
		}
		if r.Failed() {
			break
		}
		// one of them is stopped, the others don't notice
		var alive []*app
		for _, a := range w.apps {
			if !a.down {
				alive = append(alive, a)
			}
		}
		a := Pick(g, alive)
		want := error(status.ErrShutdown)
		for _, c := range clients[a.i] {
			c.conn.Close()
		}
		clients[a.i] = nil
		a.down = true
		if Chance(g, 50) {
			want = status.ErrGracefulShutdown
			a.GracefulStop()
		} else {
			a.Stop()
		}
		if !w.returned(a, want, clients) {
			break
		}
		for _, b := range w.apps {
			select {
			case err := <-b.done:
				r.Violate("stopped-too", w.plan(), "application %d returns %v when application %d is stopped", b.i, err, a.i)
			default:
			}
			stops := int64(0)
			if b.down {
				stops = 1
			}
			if b.starts.Load() != 1 || b.binds.Load() != 2 || b.stops.Load() != stops {
				r.Violate("callbacks", w.plan(), "application %d had %d start, %d bind and %d stop callbacks", b.i, b.starts.Load(), b.binds.Load(), b.stops.Load())
			}
		}
		r.Count("stopped", 1)
	}
	for _, a := range w.apps {
		for _, c := range clients[a.i] {
			c.conn.Close()
		}
		if !a.down {
			a.Stop()
			select {
			case <-a.done:
			case <-time.After(patience):
				r.Inconclusive("a stopped application doesn't return")
				return false
			}
		}
	}
	r.Eval(fmt.Sprint(w.plan()))
	r.Count("applications", int64(len(w.apps)))
	return !w.given
}

func main() {
	Main("C40", "2-4 applications at a time x configurations x routers x orders of stopping, with concurrent clients of each, under the race detector", func(r *Run) {
		g := r.Rng("apps")
		for i := 0; i < r.N(120, 2000) && !r.Failed(); i++ {
			if !round(r, g, i) {
				break
			}
		}
		r.Floor("requests", 3000)
		r.Floor("stopped", 100)
		r.Floor("exceeded", 100)
	})
}
