//go:build go1.22

// Monitor of C19: event logs of whole applications (binds, hooks, handlers, listener closes, return of Serve) over
// instrumented listeners, with injected failures and stops from everywhere, under the race detector.
package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/status"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/simple"
)

const patience = 60 * time.Second

type logbook struct {
	mu  sync.Mutex
	evs []string
}

func (l *logbook) add(f string, a ...any) {
	l.mu.Lock()
	l.evs = append(l.evs, fmt.Sprintf(f, a...))
	l.mu.Unlock()
}

func (l *logbook) all() []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]string(nil), l.evs...)
}

func (l *logbook) count(s string) (n int) {
	for _, e := range l.all() {
		if e == s {
			n++
		}
	}
	return n
}

func wait(f func() bool) bool {
	for end := time.Now().Add(patience); time.Now().Before(end); time.Sleep(200 * time.Microsecond) {
		if f() {
			return true
		}
	}
	return f()
}

// listener records its closing and can fail on demand.
type listener struct {
	net.Listener
	i      int
	log    *logbook
	closed atomic.Bool
	fail   chan error
	accept chan res
	once   sync.Once
	done   chan struct{}
	slow   time.Duration
}

type res struct {
	c   net.Conn
	err error
}

func newListener(l net.Listener, i int, log *logbook, slow time.Duration) *listener {
	x := &listener{Listener: l, i: i, log: log, fail: make(chan error, 1), accept: make(chan res), done: make(chan struct{}), slow: slow}
	return x
}

func (l *listener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if l.slow > 0 {
		time.Sleep(l.slow)
	}
	if err != nil {
		select {
		case e := <-l.fail:
			return nil, e
		default:
		}
	}
	return c, err
}

// breakIt makes the pending Accept fail with err.
func (l *listener) breakIt(err error) {
	l.fail <- err
	l.Listener.Close()
}

func (l *listener) Close() error {
	if !l.closed.Swap(true) {
		l.log.add("close %d", l.i)
	}
	return l.Listener.Close()
}

// deadliner also passes deadlines.
type deadliner struct{ *listener }

func (d deadliner) SetDeadline(t time.Time) error {
	return d.Listener.(*net.TCPListener).SetDeadline(t)
}

type src struct {
	kind   string // custom, http
	lst    *listener
	addr   string
	netw   string
	target string // where clients connect
}

type world struct {
	r      *Run
	log    *logbook
	app    *indigo.App
	srcs   []*src
	active atomic.Int64
	opens  int
	fails  int // index of the failing bind, -1: none
	err    error
	mu     sync.Mutex
	onH    func()
	plan   []string
	rt     router.Fabric
	mws    int // how many middlewares leave their mark
}

func (w *world) listen(s *src, i int, withDeadline bool, slow time.Duration) func(string, string) (net.Listener, error) {
	return func(network, addr string) (net.Listener, error) {
		w.log.add("listen %d", i)
		if network != "tcp" || addr != s.addr {
			w.log.add("wrong listen %d: %s %s", i, network, addr)
		}
		if i == w.fails {
			return nil, w.err
		}
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return nil, err
		}
		w.mu.Lock()
		s.lst = newListener(l, i, w.log, slow)
		s.target = l.Addr().String()
		w.mu.Unlock()
		if withDeadline {
			return deadliner{s.lst}, nil
		}
		return s.lst, nil
	}
}

var errBind = errors.New("injected bind failure")
var errAccept = errors.New("injected accept failure")

// whatever the error is, the listener has failed
var acceptErrors = []error{errAccept, io.EOF, net.ErrClosed, os.ErrDeadlineExceeded, syscall.EMFILE, syscall.ECONNABORTED, syscall.EINTR,
	&net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept", syscall.ECONNABORTED)},
	&net.OpError{Op: "accept", Net: "tcp", Err: os.ErrDeadlineExceeded}, &net.OpError{Op: "accept", Net: "tcp", Err: syscall.EMFILE}, fmt.Errorf("wrapped: %w", net.ErrClosed)}

func (w *world) enter() { w.active.Add(1) }
func (w *world) leave() { w.active.Add(-1) }

// handler of a custom listener: greets with its index, then echoes lines until the client leaves.
func (w *world) handler(i int) func(net.Conn, router.Router) {
	return func(c net.Conn, rt router.Router) {
		w.enter()
		defer w.leave()
		if rt == nil {
			w.log.add("no router for %d", i)
		}
		fmt.Fprintf(c, "listener %d\n", i)
		br := bufio.NewReader(c)
		for {
			s, err := br.ReadString('\n')
			if err != nil {
				break
			}
			if strings.HasPrefix(s, "stop") && w.onH != nil {
				w.onH()
			}
			fmt.Fprintf(c, "%d:%s", i, s)
		}
	}
}

func build(r *Run, g *rand.Rand) *world {
	w := &world{r: r, log: &logbook{}, fails: -1, err: errBind}
	w.rt = w.router(g)
	n := 1 + g.Intn(4)
	if Chance(g, 6) {
		n = 6 + g.Intn(9)
	}
	for i := 0; i < n; i++ {
		s := &src{kind: Pick(g, []string{"custom", "custom", "http"})}
		port := 20000 + g.Intn(20000)
		given := Pick(g, []string{fmt.Sprintf(":%d", port), fmt.Sprintf("127.0.0.1:%d", port), fmt.Sprintf("localhost:%d", port), "127.0.0.1:0"})
		s.addr = given
		if given[0] == ':' {
			s.addr = "0.0.0.0" + given
		}
		l := indigo.Listener{Listen: w.listen(s, i, Chance(g, 50), time.Duration(g.Intn(3))*time.Millisecond*time.Duration(g.Intn(2)))}
		if s.kind == "custom" {
			l.Handler = w.handler(i)
		}
		w.srcs = append(w.srcs, s)
		if i == 0 {
			w.app = indigo.New("127.0.0.1:0")
			// New listens on a real port of its own
			w.plan = append(w.plan, "New")
		}
		w.app.Listen(given, l)
		w.plan = append(w.plan, fmt.Sprintf("Listen(%s, %s)", given, s.kind))
	}
	lag := time.Duration(g.Intn(2)) * 4 * time.Millisecond
	w.app.OnBind(func(a string) { w.log.add("bind %s", a) }).
		OnStart(func() {
			time.Sleep(lag)
			w.log.add("start")
		}).
		OnStop(func() { w.log.add("stop with %d running", w.active.Load()) })
	return w
}

func (w *world) case_() any { return map[string]any{"plan": w.plan, "log": w.log.all()} }

// router makes the router of all the lives of the application.
func (w *world) router(g *rand.Rand) router.Fabric {
	h := func(q *http.Request) *http.Response {
		w.enter()
		defer w.leave()
		if q.Path == "/stop" && w.onH != nil {
			w.onH()
		}
		return q.Respond().String("http")
	}
	onError := func(q *http.Request) *http.Response { return q.Respond().Error(q.Env.Error) }
	if Chance(g, 50) {
		return simple.New(h, onError)
	}
	w.mws = 1
	mw := func(next inbuilt.Handler, q *http.Request) *http.Response { return next(q).Header("X-Mw", "1") }
	rt := inbuilt.New().RouteError(onError, inbuilt.AllErrors)
	if Chance(g, 50) {
		rt.Use(mw).Group("/").Get("{word}", h)
	} else {
		rt.Group("").Use(mw).Get("/stop", h).Catch("/", h)
	}
	return rt
}

// client talks to the i-th listener and verifies who answers.
type client struct {
	c  net.Conn
	br *bufio.Reader
	s  *src
	i  int
	w  *world
}

func (w *world) dial(i int) (*client, error) {
	w.mu.Lock()
	target := w.srcs[i].target
	w.mu.Unlock()
	c, err := net.Dial("tcp", target)
	if err != nil {
		return nil, err
	}
	_ = c.SetDeadline(time.Now().Add(patience))
	cl := &client{c, bufio.NewReader(c), w.srcs[i], i, w}
	if cl.s.kind == "custom" {
		l, err := cl.br.ReadString('\n')
		if err != nil {
			return cl, err
		}
		if l != fmt.Sprintf("listener %d\n", i) {
			return cl, fmt.Errorf("greeted by %q", l)
		}
	}
	return cl, nil
}

func (c *client) talk(word string) error {
	if c.s.kind == "custom" {
		fmt.Fprintf(c.c, "%s\n", word)
		l, err := c.br.ReadString('\n')
		if err != nil {
			return err
		}
		if l != fmt.Sprintf("%d:%s\n", c.i, word) {
			return fmt.Errorf("answered %q", l)
		}
		return nil
	}
	fmt.Fprintf(c.c, "GET /%s HTTP/1.1\r\n\r\n", word)
	var length, marks int
	for first := true; ; first = false {
		l, err := c.br.ReadString('\n')
		if err != nil {
			return err
		}
		if first && !strings.HasPrefix(l, "HTTP/1.1 200 ") {
			return fmt.Errorf("answered %q", l)
		}
		if l == "\r\n" {
			break
		}
		if strings.HasPrefix(l, "X-Mw:") {
			marks++
		}
		fmt.Sscanf(strings.ToLower(l), "content-length: %d", &length)
	}
	b := make([]byte, length)
	if _, err := io.ReadFull(c.br, b); err != nil {
		return err
	}
	if marks != c.w.mws {
		return fmt.Errorf("the middleware ran %d times instead of %d", marks, c.w.mws)
	}
	if string(b) != "http" {
		return fmt.Errorf("answered %q", b)
	}
	return nil
}

// serve runs one life of the application in the background.
func (w *world) serve() chan error {
	ch := make(chan error, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				w.log.add("panic: %v", p)
				w.r.Violate("panic", w.case_(), "Serve panics: %v", p)
				ch <- fmt.Errorf("panic: %v", p)
			}
		}()
		err := w.app.Serve(w.rt)
		w.log.add("returned")
		ch <- err
	}()
	return ch
}

// census counts goroutines of accept loops and servers.
func census() int {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	n := 0
	for _, g := range strings.Split(string(buf), "\n\n") {
		for _, l := range strings.Split(g, "\n") {
			if strings.HasPrefix(l, "github.com/indigo-web/indigo/internal/tcp.") || strings.HasPrefix(l, "github.com/indigo-web/indigo.(*App)") {
				n++
				break
			}
		}
	}
	return n
}

// nonblocking runs a stop in the background and demands that it returns.
func (w *world) nonblocking(what string, f func()) bool {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(patience):
		w.r.Violate("stop-blocks/"+what, w.case_(), "%s does not return", what)
		return false
	}
}

// checkLog is the specification of the event order of one life.
func (w *world) checkLog(expectStop bool) bool {
	evs := w.log.all()
	bad := func(kind, f string, a ...any) bool {
		w.r.Violate("log/"+kind, w.case_(), f, a...)
		return false
	}
	started, stopped, returned := 0, 0, false
	closed := map[int]bool{}
	bound := []string{}
	for _, e := range evs {
		switch {
		case strings.HasPrefix(e, "wrong"), strings.HasPrefix(e, "no router"):
			return bad("arguments", "%s", e)
		case strings.HasPrefix(e, "listen "), strings.HasPrefix(e, "bind "):
			if started > 0 {
				return bad("bind-after-start", "%q after the start was signalled: %q", e, evs)
			}
			if e[0] == 'b' {
				bound = append(bound, e[5:])
			}
		case e == "start":
			started++
			if stopped > 0 || returned {
				return bad("start-after-stop", "the start was signalled after the stop: %q", evs)
			}
		case strings.HasPrefix(e, "close "):
			var i int
			fmt.Sscanf(e, "close %d", &i)
			closed[i] = true
		case strings.HasPrefix(e, "stop"):
			stopped++
			if e != "stop with 0 running" {
				return bad("stop-callback", "the stop callback ran with handlers running: %q", e)
			}
		case e == "returned":
			returned = true
			for i, s := range w.srcs {
				if s.lst != nil && !closed[i] {
					return bad("listener-open", "Serve returned although listener %d is open: %q", i, evs)
				}
			}
		}
	}
	if !returned {
		return bad("returned", "Serve did not return: %q", evs)
	}
	want := []string{"127.0.0.1:0"}
	for i, s := range w.srcs {
		if w.fails >= 0 && i >= w.fails {
			break
		}
		want = append(want, s.addr)
	}
	if fmt.Sprint(bound) != fmt.Sprint(want) {
		return bad("binds", "reported addresses %q, bound were %q", bound, want)
	}
	if w.fails < 0 && started != 1 {
		return bad("start-callback", "the start was signalled %d times", started)
	}
	if w.fails >= 0 && started != 0 {
		return bad("start-callback", "the start was signalled although binding failed")
	}
	if expectStop && stopped != 1 {
		return bad("stop-callback", "the stop callback ran %d times", stopped)
	}
	return true
}

// listening counts the listening TCP sockets of this process (-1: not known).
func listening() int {
	fds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	own := map[string]bool{}
	for _, fd := range fds {
		if l, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(l, "socket:[") {
			own[strings.Trim(l, "socket:[]")] = true
		}
	}
	n := 0
	for _, name := range []string{"/proc/self/net/tcp", "/proc/self/net/tcp6"} {
		b, err := os.ReadFile(name)
		if err != nil && name == "/proc/self/net/tcp" {
			return -1
		}
		for _, l := range strings.Split(string(b), "\n") {
			if f := strings.Fields(l); len(f) > 9 && f[3] == "0A" && own[f[9]] {
				n++
			}
		}
	}
	return n
}

func (w *world) ended(ch chan error, wants ...error) bool {
	select {
	case err := <-ch:
		ok := false
		for _, e := range wants {
			ok = ok || err == e
		}
		if !ok {
			w.r.Violate("result", w.case_(), "Serve returned %v, expected %v", err, wants)
			return false
		}
	case <-time.After(patience):
		w.r.Violate("serve-hangs", w.case_(), "Serve does not return")
		return false
	}
	if !wait(func() bool { return census() == 0 }) {
		buf := make([]byte, 1<<18)
		buf = buf[:runtime.Stack(buf, true)]
		w.r.Violate("goroutine-left", w.case_(), "goroutines of the servers are left:\n%s", buf)
		return false
	}
	// also the listeners that aren't instrumented must be closed
	if n := listening(); n > 0 {
		w.r.Violate("socket-left", w.case_(), "Serve returned, but %d sockets are still listening", n)
		return false
	} else if n == 0 {
		w.r.Count("sockets_closed", 1)
	}
	return true
}

func bindFailure(r *Run, g *rand.Rand) {
	w := build(r, g)
	w.fails = g.Intn(len(w.srcs))
	w.plan = append(w.plan, fmt.Sprintf("bind %d fails", w.fails))
	r.Step("%v", w.plan)
	ch := w.serve()
	if !w.ended(ch, errBind) || !w.checkLog(false) {
		return
	}
	r.Eval(fmt.Sprint("bindfail", w.plan))
	r.Count("bind_failures", 1)
}

func acceptFailure(r *Run, g *rand.Rand) {
	w := build(r, g)
	k := g.Intn(len(w.srcs))
	w.plan = append(w.plan, fmt.Sprintf("accept of %d fails", k))
	r.Step("%v", w.plan)
	ch := w.serve()
	if !wait(func() bool { return w.log.count("start") == 1 }) {
		r.Violate("never-starts", w.case_(), "the application does not start")
		return
	}
	if n := listening(); n > 0 {
		r.Count("sockets_seen", int64(n))
	}
	failure := Pick(g, acceptErrors)
	w.plan = append(w.plan, fmt.Sprint(failure))
	w.srcs[k].lst.breakIt(failure)
	if !w.ended(ch, failure) || !w.checkLog(true) {
		return
	}
	r.Eval(fmt.Sprint("acceptfail", w.plan))
	r.Count("accept_failures", 1)
}

// life: clients, then stops of some kind from somewhere.
func life(r *Run, g *rand.Rand) {
	w := build(r, g)
	how := Pick(g, []string{"stop", "graceful", "both", "many", "from-handler", "from-start", "early", "graceful-with-clients", "graceful-with-clients", "stop-with-clients"})
	graceful := Chance(g, 50)
	stop, want := w.app.Stop, []error{status.ErrShutdown}
	if graceful {
		stop, want = w.app.GracefulStop, []error{status.ErrGracefulShutdown}
	}
	w.plan = append(w.plan, how, fmt.Sprint("graceful: ", graceful))
	r.Step("%v", w.plan)
	var called atomic.Int64
	w.onH = func() {
		if called.Add(1) == 1 {
			w.nonblocking("stop from a handler", stop)
		}
	}
	switch how {
	case "early":
		for k := 1 + g.Intn(3); k > 0; k-- {
			if !w.nonblocking("early stop", stop) {
				return
			}
		}
	case "from-start":
		w.app.OnStart(func() {
			w.log.add("start")
			stop()
			stop()
		})
	}
	ch := w.serve()
	if how == "early" || how == "from-start" {
		if !w.ended(ch, want...) || !w.checkLog(true) {
			return
		}
		r.Eval(fmt.Sprint(w.plan))
		r.Count("early_stops", 1)
		return
	}
	if !wait(func() bool { return w.log.count("start") == 1 }) {
		r.Violate("never-starts", w.case_(), "the application does not start")
		return
	}
	// clients of every listener talk concurrently
	var wg sync.WaitGroup
	var mu sync.Mutex
	var open []*client
	for k := 0; k < len(w.srcs)*2; k++ {
		i := k % len(w.srcs)
		stay := Chance(g, 30) && strings.HasSuffix(how, "-with-clients")
		wg.Add(1)
		go func() {
			defer wg.Done()
			c, err := w.dial(i)
			for t := 0; t < 3 && err == nil; t++ {
				err = c.talk("hello")
			}
			if err != nil {
				r.Violate("wrong-handler", w.case_(), "a client of listener %d (%s): %v", i, w.srcs[i].kind, err)
			}
			if c == nil {
				return
			}
			if stay && err == nil {
				mu.Lock()
				open = append(open, c)
				mu.Unlock()
			} else {
				c.c.Close()
			}
		}()
	}
	wg.Wait()
	r.Count("clients", int64(len(w.srcs)*2))
	if r.Failed() {
		return
	}
	switch how {
	case "stop", "graceful":
		if !w.nonblocking(how, stop) {
			return
		}
	case "both":
		want = []error{status.ErrShutdown, status.ErrGracefulShutdown}
		go w.nonblocking("stop", w.app.Stop)
		if !w.nonblocking("graceful", w.app.GracefulStop) {
			return
		}
	case "many":
		for k := 0; k < 6; k++ {
			if !w.nonblocking("repeated stop", stop) {
				return
			}
		}
	case "from-handler":
		c, err := w.dial(g.Intn(len(w.srcs)))
		if err == nil {
			err = c.talk("stop")
		}
		if err != nil {
			r.Violate("stop-from-handler", w.case_(), "the handler that stops the application cannot finish: %v", err)
			return
		}
		r.Count("stops_from_handlers", 1)
		c.c.Close()
	case "graceful-with-clients", "stop-with-clients":
		if how == "graceful-with-clients" {
			stop, want = w.app.GracefulStop, []error{status.ErrGracefulShutdown}
		} else {
			stop, want = w.app.Stop, []error{status.ErrShutdown}
		}
		if !w.nonblocking(how, stop) {
			return
		}
		if Chance(g, 50) {
			w.nonblocking("second stop", stop)
		}
		time.Sleep(time.Duration(g.Intn(4)) * time.Millisecond)
		for _, c := range open {
			for t := 0; t < 2; t++ {
				if err := c.talk("still here"[:5]); err != nil && how == "graceful-with-clients" {
					r.Violate("graceful-client", w.case_(), "a connected client of listener %d isn't served during the graceful stop: %v", c.i, err)
					return
				}
			}
			r.Count("graceful_clients", 1)
		}
		if len(open) > 0 {
			select {
			case err := <-ch:
				r.Violate("returned-early", w.case_(), "Serve returned %v although clients are connected", err)
				return
			default:
			}
			if n := w.log.count("stop with 0 running") + w.log.count("returned"); n > 0 {
				r.Violate("returned-early", w.case_(), "stopped although clients are connected")
				return
			}
		}
		for _, c := range open {
			c.c.Close()
		}
	}
	if !w.ended(ch, want...) || !w.checkLog(true) {
		return
	}
	r.Eval(fmt.Sprint(w.plan))
	r.Count("lives", 1)
	r.Sample(how, w.case_())

	// a second life of the same application
	// (a stop that comes only after the first one has ended is an early stop of the second)
	once := how == "stop" || how == "graceful" || how == "from-handler" || len(open) > 0
	if once && Chance(g, 50) {
		w.log = &logbook{}
		w.plan = append(w.plan, "again")
		w.onH = nil
		for _, s := range w.srcs {
			s.lst = nil
		}
		ch = w.serve()
		if !wait(func() bool { return w.log.count("start") == 1 || r.Failed() }) || r.Failed() {
			r.Violate("restart", w.case_(), "the application does not start again")
			return
		}
		i := g.Intn(len(w.srcs))
		c, err := w.dial(i)
		if err == nil {
			err = c.talk("again")
		}
		if err != nil {
			r.Violate("restart", w.case_(), "a client of listener %d in the second life: %v", i, err)
			return
		}
		c.c.Close()
		if !w.nonblocking("stop", w.app.Stop) || !w.ended(ch, status.ErrShutdown) || !w.checkLog(true) {
			return
		}
		r.Count("restarts", 1)
	}
}

// eager hands out its last connections at the very moment it's being shut.
type eager struct {
	mu      sync.Mutex
	shut    bool
	left    int
	pipes   []net.Conn
	wake    chan struct{}
	accepts int
}

func (l *eager) Accept() (net.Conn, error) {
	<-l.wake
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.left == 0 {
		return nil, net.ErrClosed
	}
	l.left--
	l.accepts++
	a, b := net.Pipe()
	l.pipes = append(l.pipes, b)
	return a, nil
}

func (l *eager) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	if !l.shut {
		l.shut = true
		close(l.wake)
	}
	return nil
}
func (l *eager) Addr() net.Addr { return &net.TCPAddr{Port: 1} }

// lastMoment: connections accepted just when the application is stopped are over before the stop callback.
func lastMoment(r *Run, g *rand.Rand) {
	var running, handled atomic.Int64
	var stopped atomic.Bool
	var late, busy atomic.Int64
	spin := g.Intn(20)
	n := 1 + g.Intn(6)
	var ls []*eager
	app := indigo.New("127.0.0.1:0")
	for i := 0; i < n; i++ {
		l := &eager{left: 1 + g.Intn(2), wake: make(chan struct{})}
		ls = append(ls, l)
		app.Listen(fmt.Sprintf("fake:%d", i+1), indigo.Listener{Listen: func(string, string) (net.Listener, error) { return l, nil }, Handler: func(c net.Conn, _ router.Router) {
			running.Add(1)
			if stopped.Load() {
				late.Add(1)
			}
			for k := 0; k < spin; k++ {
				runtime.Gosched()
			}
			handled.Add(1)
			running.Add(-1)
		}})
	}
	starts := make(chan struct{})
	app.OnStart(func() { close(starts) }).OnStop(func() {
		busy.Add(running.Load())
		stopped.Store(true)
	})
	done := make(chan error, 1)
	go func() { done <- app.Serve(inbuilt.New()) }()
	select {
	case <-starts:
	case <-time.After(patience):
		r.Violate("never-starts", nil, "the application does not start")
		return
	}
	for k := g.Intn(3); k > 0; k-- {
		runtime.Gosched()
	}
	app.Stop()
	select {
	case <-done:
	case <-time.After(patience):
		r.Violate("serve-hangs", nil, "Serve does not return although all the handlers do")
		return
	}
	accepted := 0
	for _, l := range ls {
		l.mu.Lock()
		accepted += l.accepts
		for _, p := range l.pipes {
			_ = p.Close()
		}
		l.mu.Unlock()
	}
	was := handled.Load()
	for k := 0; k < 50; k++ {
		runtime.Gosched()
	}
	if busy.Load() > 0 || late.Load() > 0 || handled.Load() != was {
		r.Violate("last-moment", map[string]any{"listeners": n, "accepted": accepted}, "%d handlers were running in the stop callback, %d began after it, %d ended after Serve had returned", busy.Load(), late.Load(), handled.Load()-was)
	}
	r.Eval(fmt.Sprint("last", n, spin, accepted))
	r.Count("last_moment_connections", int64(accepted))
	r.Count("last_moment_handled", was)
}

// longHold: however long connected clients stay, the shutdown waits for them.
func longHold(r *Run, g *rand.Rand, hold time.Duration) {
	type held struct {
		w    *world
		ch   chan error
		cs   []*client
		want error
	}
	var all []held
	for k := 0; k < 6; k++ {
		w := build(r, g)
		h := held{w: w, ch: w.serve(), want: status.ErrShutdown}
		if !wait(func() bool { return w.log.count("start") == 1 }) {
			r.Violate("never-starts", w.case_(), "the application does not start")
			return
		}
		only := g.Intn(len(w.srcs))
		for i := range w.srcs {
			if k%2 == 0 && i != only {
				continue
			}
			c, err := w.dial(i)
			if err == nil {
				err = c.talk("hello")
			}
			if err != nil {
				r.Violate("wrong-handler", w.case_(), "a client of listener %d (%s): %v", i, w.srcs[i].kind, err)
				return
			}
			h.cs = append(h.cs, c)
		}
		stop := w.app.Stop
		if k%3 != 0 {
			stop, h.want = w.app.GracefulStop, status.ErrGracefulShutdown
		}
		w.plan = append(w.plan, fmt.Sprintf("clients stay for %v after the stop (%v)", hold, h.want))
		if !w.nonblocking("stop", stop) {
			return
		}
		all = append(all, h)
	}
	for begin := time.Now(); time.Since(begin) < hold; time.Sleep(100 * time.Millisecond) {
		r.Step("clients stay")
	}
	for _, h := range all {
		select {
		case err := <-h.ch:
			r.Violate("returned-early", h.w.case_(), "Serve returned %v although clients are connected", err)
			return
		default:
		}
		for _, c := range h.cs {
			_ = c.c.SetDeadline(time.Now().Add(patience))
			if err := c.talk("still"); err != nil && h.want == status.ErrGracefulShutdown {
				r.Violate("graceful-client", h.w.case_(), "a client of listener %d isn't served %v after the graceful stop: %v", c.i, hold, err)
				return
			}
		}
		r.Count("held", 1)
	}
	for _, h := range all {
		for _, c := range h.cs {
			c.c.Close()
		}
	}
	for _, h := range all {
		select {
		case err := <-h.ch:
			if err != h.want {
				r.Violate("result", h.w.case_(), "Serve returned %v, expected %v", err, h.want)
			}
		case <-time.After(patience):
			r.Violate("serve-hangs", h.w.case_(), "Serve does not return")
			return
		}
		h.w.checkLog(true)
	}
}

// noRouter: an application served without a router answers every request, as an empty router does.
func noRouter(r *Run, i int) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r.Inconclusive("%v", err)
		return
	}
	addr := l.Addr().String()
	started := make(chan struct{})
	done := make(chan error, 1)
	app := indigo.New("127.0.0.1:0").Listen("127.0.0.1:1", indigo.Listener{Listen: func(string, string) (net.Listener, error) { return l, nil }}).OnStart(func() { close(started) })
	go func() { done <- app.Serve(nil) }()
	select {
	case <-started:
	case err = <-done:
		r.Violate("no-router", nil, "serving without a router fails: %v", err)
		return
	case <-time.After(60 * time.Second):
		r.Inconclusive("an application without a router doesn't start")
		return
	}
	conn, err := net.DialTimeout("tcp", addr, 60*time.Second)
	if err != nil {
		r.Violate("no-router", nil, "%v", err)
	} else {
		_ = conn.SetDeadline(time.Now().Add(60 * time.Second))
		_, _ = conn.Write([]byte("GET /some HTTP/1.1\r\nConnection: close\r\n\r\n"))
		text, err := io.ReadAll(conn)
		conn.Close()
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			r.Inconclusive("no answer without a router")
		} else if !strings.HasPrefix(string(text), "HTTP/1.1 404 ") {
			r.Violate("no-router", nil, "without a router a request is answered by %s (%v)", Q(text), err)
		}
	}
	want := status.ErrShutdown
	if i%2 == 0 {
		app.Stop()
	} else {
		app.GracefulStop()
		want = status.ErrGracefulShutdown
	}
	select {
	case err = <-done:
		if err != want {
			r.Violate("no-router", nil, "serving without a router returns %v, want %v", err, want)
		}
	case <-time.After(60 * time.Second):
		r.Inconclusive("an application without a router doesn't stop")
	}
	r.Eval(fmt.Sprint("no router", i))
	r.Count("no_router", 1)
}

func main() {
	Main("C19", "random applications (1-4 extra listeners, own and HTTP handlers) x bind and accept failures x stop kinds, origins and repetitions x connected clients, under the race detector", func(r *Run) {
		g := r.Rng("apps")
		for i := 0; i < r.N(400, 4000) && !r.Failed(); i++ {
			switch i % 8 {
			case 0:
				bindFailure(r, g)
			case 1:
				acceptFailure(r, g)
			default:
				life(r, g)
			}
		}
		for i := 0; i < 4 && !r.Failed(); i++ {
			noRouter(r, i)
		}
		r.Step("last moments")
		for i := 0; i < r.N(1500, 20000) && !r.Failed(); i++ {
			if i%3 == 0 {
				prev := runtime.GOMAXPROCS(1 + i/3%2)
				lastMoment(r, g)
				runtime.GOMAXPROCS(prev)
			} else {
				lastMoment(r, g)
			}
			if i%50 == 0 {
				r.Step("last moments %d", i)
			}
		}
		if !r.Failed() {
			longHold(r, g, time.Duration(r.N(32, 70))*time.Second)
		}
		r.Floor("no_router", 4)
		if listening() >= 0 {
			r.Floor("sockets_closed", 300)
			r.Floor("sockets_seen", 100)
		}
		r.Floor("held", 6)
		r.Floor("last_moment_connections", 1000)
		for _, n := range []string{"bind_failures", "accept_failures", "early_stops", "lives", "restarts", "graceful_clients", "stops_from_handlers"} {
			r.Floor(n, 10)
		}
	})
}
