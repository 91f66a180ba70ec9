//go:build go1.22

// Monitor of C18: event logs of tcp.Server over instrumented and real listeners, under the race detector.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/indigo-web/indigo/internal/tcp"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
)

// patience bounds the wait for something that must happen; far above what any schedule needs.
const patience = 30 * time.Second

type event struct {
	Seq  int64
	Name string
	Conn int
}

type logbook struct {
	mu     sync.Mutex
	seq    int64
	events []event
	cond   *sync.Cond
}

func newLog() *logbook {
	l := &logbook{}
	l.cond = sync.NewCond(&l.mu)
	return l
}

func (l *logbook) add(name string, conn int) int64 {
	l.mu.Lock()
	l.seq++
	s := l.seq
	l.events = append(l.events, event{s, name, conn})
	l.cond.Broadcast()
	l.mu.Unlock()
	return s
}

func (l *logbook) count(name string) (n int) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, e := range l.events {
		if e.Name == name {
			n++
		}
	}
	return n
}

// await blocks until the event was logged n times.
func (l *logbook) await(name string, n int) bool {
	deadline := time.Now().Add(patience)
	for time.Now().Before(deadline) {
		if l.count(name) >= n {
			return true
		}
		time.Sleep(200 * time.Microsecond)
	}
	return false
}

func (l *logbook) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	var sb strings.Builder
	for _, e := range l.events {
		fmt.Fprintf(&sb, "%d:%s", e.Seq, e.Name)
		if e.Conn >= 0 {
			fmt.Fprintf(&sb, "(%d)", e.Conn)
		}
		sb.WriteByte(' ')
	}
	return sb.String()
}

// conn is an instrumented connection.
type conn struct {
	net.Conn
	id  int
	log *logbook
}

func (c *conn) Close() error {
	c.log.add("close", c.id)
	if c.Conn != nil {
		return c.Conn.Close()
	}
	if c.id%3 == 2 {
		return errors.New("closing failed")
	}
	return nil
}

func (c *conn) Read([]byte) (int, error)    { return 0, net.ErrClosed }
func (c *conn) Write(b []byte) (int, error) { return len(b), nil }
func (c *conn) RemoteAddr() net.Addr {
	if c.id%5 == 4 {
		return nil // as of a dead socket
	}
	return &net.TCPAddr{IP: net.IPv4(10, 0, 0, byte(c.id%3)), Port: 1000} // peers are not told apart by it
}

func (c *conn) LocalAddr() net.Addr             { return &net.TCPAddr{} }
func (c *conn) SetDeadline(time.Time) error     { return nil }
func (c *conn) SetReadDeadline(time.Time) error { return nil }

// listener hands out scripted connections; hook runs on the accepting goroutine right before Accept returns.
type listener struct {
	log    *logbook
	conns  chan *conn
	errs   chan error
	closed chan struct{}
	once   sync.Once
	wake   chan struct{}
	hook   func(c *conn)
	calls  atomic.Int64
	fails  bool // closing reports an error
	mu     sync.Mutex
	last   error // what Accept failed with
}

func (l *listener) failed(err error) (net.Conn, error) {
	l.mu.Lock()
	l.last = err
	l.mu.Unlock()
	return nil, err
}

func (l *listener) lastError() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.last
}

func newListener(l *logbook) *listener {
	return &listener{log: l, conns: make(chan *conn, 4096), errs: make(chan error, 8), closed: make(chan struct{}), wake: make(chan struct{}, 1)}
}

func (l *listener) Accept() (net.Conn, error) {
	l.calls.Add(1)
	l.log.add("accept-call", -1)
	select {
	case c := <-l.conns:
		if l.hook != nil {
			l.hook(c)
		}
		l.log.add("accept", c.id)
		return c, nil
	case err := <-l.errs:
		return l.failed(err)
	case <-l.closed:
		return l.failed(net.ErrClosed)
	case <-l.wake:
		return l.failed(os.ErrDeadlineExceeded)
	}
}

func (l *listener) Close() error {
	l.once.Do(func() {
		l.log.add("listener-closed", -1)
		close(l.closed)
	})
	if l.fails {
		return errors.New("closing the listener failed")
	}
	return nil
}

func (l *listener) Addr() net.Addr { return &net.TCPAddr{} }

// deadliner additionally supports deadlines.
type deadliner struct{ *listener }

func (d deadliner) SetDeadline(t time.Time) error {
	if t.IsZero() || time.Until(t) > time.Hour {
		return nil
	}
	if time.Until(t) > 2*time.Second {
		d.log.add("deadline-ahead", -1)
		return nil
	}
	d.log.add("deadline", -1)
	select {
	case d.wake <- struct{}{}:
	default:
	}
	return nil
}

// world is one server with its log.
type world struct {
	r       *Run
	log     *logbook
	lst     *listener
	srv     *tcp.Server
	name    string
	release chan struct{} // handlers block on it if not nil
	startCh chan error
	delay   func(id int)
	dl      bool
}

func newWorld(r *Run, name string, withDeadline bool) *world {
	w := &world{r: r, log: newLog(), name: name, startCh: make(chan error, 1), dl: withDeadline}
	w.lst = newListener(w.log)
	var nl net.Listener = w.lst
	if withDeadline {
		nl = deadliner{w.lst}
	}
	w.srv = tcp.NewServer(nl, w.handle)
	return w
}

func (w *world) handle(c net.Conn) {
	id := -1
	if ic, ok := c.(*conn); ok {
		id = ic.id
	}
	w.log.add("handler-start", id)
	if w.delay != nil {
		w.delay(id)
	}
	if w.release != nil {
		<-w.release
	}
	w.log.add("handler-end", id)
}

func (w *world) start() {
	go func() {
		err := w.srv.Start()
		w.log.add("start-returned", -1)
		if last := w.lst.lastError(); last != nil && last != err {
			w.fail("accept-error-lost", "Start returned %v, accepting failed with %v", err, last)
		}
		w.startCh <- err
	}()
}

func (w *world) fail(kind, format string, args ...any) {
	w.r.Violate(kind, map[string]any{"scenario": w.name, "log": clip(w.log.String())}, "%s: %s", w.name, fmt.Sprintf(format, args...))
}

func clip(s string) string {
	if len(s) > 6000 {
		return s[:6000] + "..."
	}
	return s
}

func (w *world) send(id int) { w.lst.conns <- &conn{id: id, log: w.log} }

func (w *world) pause() {
	w.log.add("pause-call", -1)
	w.srv.Pause()
	w.log.add("pause-returned", -1)
}

func (w *world) stop() {
	w.log.add("stop-call", -1)
	_ = w.srv.Stop()
	w.log.add("stop-returned", -1)
}

func (w *world) wait() {
	w.log.add("wait-call", -1)
	w.srv.Wait()
	w.log.add("wait-returned", -1)
}

func (w *world) startReturned() (error, bool) {
	select {
	case err := <-w.startCh:
		return err, true
	case <-time.After(patience):
		w.fail("start-does-not-return", "Start did not return")
		return nil, false
	}
}

// judge is the oracle over the log; strict: every accepted connection has to be handled because nothing
// was shut down while accepting.
func (w *world) judge(strict bool) {
	w.log.mu.Lock()
	events := append([]event(nil), w.log.events...)
	w.log.mu.Unlock()
	type st struct{ accept, start, end, close, starts, closes int64 }
	conns := map[int]*st{}
	get := func(id int) *st {
		if conns[id] == nil {
			conns[id] = &st{}
		}
		return conns[id]
	}
	var shutCalled, shutReturned, lastWaitCall int64
	running := map[int]bool{}
	// shutting down interrupts the accepting, unless it is a pause of a listener without deadlines
	var pauseReturned, stopCall int64
	interrupting := w.dl
	for _, e := range events {
		switch e.Name {
		case "pause-returned":
			if pauseReturned == 0 {
				pauseReturned = e.Seq
			}
		case "stop-call":
			if stopCall == 0 {
				stopCall = e.Seq
				interrupting = interrupting || pauseReturned == 0
			}
		}
	}
	for _, e := range events {
		switch e.Name {
		case "accept":
			get(e.Conn).accept = e.Seq
			w.r.Count("accepted", 1)
			if shutReturned > 0 {
				w.r.Count("accepted_after_shutdown", 1)
			}
		case "handler-start":
			c := get(e.Conn)
			c.starts++
			if c.starts > 1 {
				w.fail("handled-twice", "connection %d was handled twice", e.Conn)
			}
			c.start = e.Seq
			running[e.Conn] = true
			if !w.dl && pauseReturned > 0 && c.accept > pauseReturned && (stopCall == 0 || e.Seq < stopCall) {
				w.fail("handled-after-shutdown", "connection %d, accepted after pause had returned, was handled", e.Conn)
			}
			if c.close > 0 {
				w.fail("closed-before-handler", "connection %d was closed before its handler", e.Conn)
			}
			w.r.Count("handled", 1)
		case "handler-end":
			c := get(e.Conn)
			c.end = e.Seq
			delete(running, e.Conn)
			if c.close > 0 {
				w.fail("closed-early", "connection %d was closed while its handler was running", e.Conn)
			}
		case "close":
			c := get(e.Conn)
			c.closes++
			if c.close == 0 {
				c.close = e.Seq
			}
			if c.starts > 0 && c.end == 0 {
				w.fail("closed-early", "connection %d was closed while its handler was running", e.Conn)
			}
		case "pause-call", "stop-call":
			if shutCalled == 0 {
				shutCalled = e.Seq
			}
		case "pause-returned", "stop-returned":
			if shutReturned == 0 {
				shutReturned = e.Seq
			}
		case "wait-call":
			lastWaitCall = e.Seq
		case "wait-returned":
			w.r.Count("waits", 1)
			for id := range running {
				if get(id).start < lastWaitCall || (shutReturned > 0 && shutReturned < lastWaitCall) {
					w.fail("wait-too-early", "wait returned while the handler of connection %d was running", id)
				}
			}
			// "Wait blocks the caller until all the connections are closed"
			for id, c := range conns {
				if c.starts > 0 && c.start < lastWaitCall && c.end > 0 && c.closes == 0 {
					w.fail("wait-before-close", "wait returned before connection %d was closed", id)
				}
			}
			// a connection dispatched before the wait was called counts, too: the accept loop had come back
			for id, c := range conns {
				if c.accept == 0 || c.starts > 0 {
					continue
				}
				dispatched := false
				for _, f := range events {
					if f.Name == "accept-call" && f.Seq > c.accept && f.Seq < lastWaitCall {
						dispatched = true
					}
				}
				if dispatched {
					for _, f := range events {
						if f.Name == "handler-start" && f.Conn == id && f.Seq > e.Seq {
							w.fail("wait-too-early", "wait returned before the handler of the accepted connection %d had started", id)
						}
					}
				}
			}
			if shutReturned > 0 && shutReturned < lastWaitCall {
				for _, f := range events {
					if f.Name == "handler-start" && f.Seq > e.Seq {
						w.fail("handler-after-wait", "the handler of connection %d started after shutdown and wait had returned", f.Conn)
					}
				}
			}
		}
	}
	for id, c := range conns {
		if c.accept == 0 {
			w.fail("phantom", "connection %d was handled but never accepted", id)
			continue
		}
		if c.starts > 0 && c.end == 0 {
			continue // still running: scenarios end all the handlers before judging
		}
		if c.closes == 0 {
			w.fail("not-closed", "connection %d was never closed", id)
		}
		dispatched := false
		for _, f := range events {
			if f.Name == "accept-call" && f.Seq > c.accept && f.Seq < shutCalled {
				dispatched = true
			}
		}
		if c.starts == 0 && (strict || shutCalled == 0 || dispatched || (interrupting && !w.lst.fails)) {
			w.fail("not-handled", "connection %d was accepted but never handled", id)
		}
		if dispatched && shutCalled > 0 && c.start > shutCalled {
			w.r.Count("dispatched_then_shut", 1)
		}
	}
}

// settle waits until each accepted connection is closed (bounded).
func (w *world) settle() {
	deadline := time.Now().Add(patience)
	for time.Now().Before(deadline) {
		w.log.mu.Lock()
		acc, clo := map[int]bool{}, map[int]bool{}
		for _, e := range w.log.events {
			if e.Name == "accept" {
				acc[e.Conn] = true
			}
			if e.Name == "close" {
				clo[e.Conn] = true
			}
		}
		w.log.mu.Unlock()
		if len(acc) == len(clo) {
			return
		}
		time.Sleep(200 * time.Microsecond)
	}
}

func (w *world) done(strict bool) {
	w.settle()
	w.judge(strict)
	w.r.Eval(w.name + w.shape())
	w.r.Sample(strings.Fields(w.name)[0], clip(w.log.String()))
}

// shape is the interleaving seen, without connection numbers.
func (w *world) shape() string {
	w.log.mu.Lock()
	defer w.log.mu.Unlock()
	var sb strings.Builder
	for _, e := range w.log.events {
		sb.WriteString(e.Name)
		sb.WriteByte(' ')
	}
	return sb.String()
}

func jitter(g *rand.Rand) {
	switch g.Intn(6) {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(g.Intn(300)) * time.Microsecond)
	case 2:
		for i := g.Intn(2000); i > 0; i-- {
			_ = i
		}
	}
}

// concurrent: all the handlers run at once; wait does not return before the last of them ends.
func concurrent(r *Run, g *rand.Rand, dl bool) {
	concurrentN(r, g, dl, 1+g.Intn(12))
}

func concurrentN(r *Run, g *rand.Rand, dl bool, n int) {
	w := newWorld(r, fmt.Sprintf("concurrent n=%d deadliner=%v", n, dl), dl)
	w.release = make(chan struct{})
	w.start()
	for i := 0; i < n; i++ {
		w.send(i)
	}
	if !w.log.await("handler-start", n) {
		w.fail("not-concurrent", "only %d of %d connections are being handled", w.log.count("handler-start"), n)
		close(w.release)
		return
	}
	waited := make(chan struct{})
	go func() { w.wait(); close(waited) }()
	// release all but one
	for i := 0; i < n-1; i++ {
		w.release <- struct{}{}
	}
	w.log.await("handler-end", n-1)
	w.log.await("close", n-1)
	time.Sleep(time.Duration(g.Intn(3)) * time.Millisecond)
	close(w.release)
	select {
	case <-waited:
	case <-time.After(patience):
		w.fail("wait-hangs", "wait did not return after the last handler")
	}
	w.log.await("close", n)
	if g.Intn(2) == 0 {
		w.pause()
		if !dl {
			if w.log.count("listener-closed") > 0 {
				w.fail("pause-closes", "pause closed the listener")
			}
			w.send(n) // a listener without deadlines needs another connection to notice
		}
		if _, ok := w.startReturned(); !ok {
			return
		}
		if w.log.count("listener-closed") > 0 {
			w.fail("pause-closes", "pause closed the listener")
		}
		w.wait()
		w.stop()
	} else {
		w.stop()
		if _, ok := w.startReturned(); !ok {
			return
		}
	}
	if w.log.count("listener-closed") != 1 {
		w.fail("stop-does-not-close", "stop did not close the listener")
	}
	w.done(false)
}

// lateAccept: the connection is returned by Accept after pause or stop has returned.
func lateAccept(r *Run, g *rand.Rand, dl bool, how string) {
	n := g.Intn(4)
	w := newWorld(r, fmt.Sprintf("late-accept how=%s n=%d deadliner=%v", how, n, dl), dl)
	w.start()
	for i := 0; i < n; i++ {
		w.send(i)
	}
	w.log.await("close", n)
	ready := make(chan struct{})
	w.lst.hook = func(c *conn) {
		if c.id != 100 {
			return
		}
		<-ready
	}
	w.send(100)
	// now the accept loop holds connection 100
	for len(w.lst.conns) > 0 {
		time.Sleep(50 * time.Microsecond)
	}
	waits := make(chan struct{})
	if strings.HasPrefix(how, "pause") {
		w.pause()
	} else {
		w.stop()
	}
	if strings.HasSuffix(how, "wait") {
		go func() { w.wait(); close(waits) }()
		if !dl && how == "pause-wait" {
			// the accepting cannot be interrupted, so it is not waited for either
			select {
			case <-waits:
			case <-time.After(patience):
				w.fail("wait-hangs", "wait does not return although no handler is running")
			}
		}
		time.Sleep(time.Duration(g.Intn(2000)) * time.Microsecond)
	} else {
		close(waits)
	}
	close(ready)
	if _, ok := w.startReturned(); !ok {
		return
	}
	select {
	case <-waits:
	case <-time.After(patience):
		w.fail("wait-hangs", "wait does not return")
		return
	}
	w.wait()
	if strings.HasPrefix(how, "pause") {
		w.stop()
	}
	w.done(false)
	if w.log.count("accepted") == 0 {
		r.Count("late_accepts", 1)
	}
}

// waitInside calls Wait on the accepting goroutine right after a connection was dispatched, when its
// handler has most probably not run yet.
func waitInside(r *Run, g *rand.Rand) {
	w := newWorld(r, "wait-inside", g.Intn(2) == 0)
	k := g.Intn(200)
	w.delay = func(id int) { time.Sleep(time.Duration((k+id*37)%200) * time.Microsecond) }
	n := 1 + g.Intn(5)
	inner := &waiter{listener: w.lst, w: w}
	w.srv = tcp.NewServer(inner, w.handle)
	for i := 0; i < n; i++ {
		w.send(i)
	}
	w.start()
	w.log.await("close", n)
	w.stop()
	if _, ok := w.startReturned(); !ok {
		return
	}
	w.done(true)
	r.Count("waits_inside", int64(n))
}

type waiter struct {
	*listener
	w *world
}

func (x *waiter) Accept() (net.Conn, error) {
	if x.calls.Load() > 0 {
		x.log.add("accept-call", -1)
		x.w.wait()
	}
	return x.listener.Accept()
}

// shutInside shuts the server down on the accepting goroutine right after connections were dispatched, when
// their handlers have most probably not run yet; they have been accepted, so they are handled and waited for.
func shutInside(r *Run, g *rand.Rand, how string) {
	w := newWorld(r, "shut-inside how="+how, false)
	k := g.Intn(200)
	w.delay = func(id int) { time.Sleep(time.Duration((k+id*37)%200) * time.Microsecond) }
	n := 1 + g.Intn(5)
	inner := &shutter{listener: w.lst, w: w, after: int64(n), how: how}
	w.srv = tcp.NewServer(inner, w.handle)
	for i := 0; i < n; i++ {
		w.send(i)
	}
	w.start()
	if _, ok := w.startReturned(); !ok {
		return
	}
	w.wait()
	w.stop()
	w.done(true)
	r.Count("shut_inside", int64(n))
}

type shutter struct {
	*listener
	w     *world
	after int64
	how   string
}

func (x *shutter) Accept() (net.Conn, error) {
	if x.calls.Load() == x.after {
		x.log.add("accept-call", -1)
		switch x.how {
		case "pause":
			x.w.pause()
			x.errs <- os.ErrDeadlineExceeded
		case "stop":
			x.w.stop()
		case "pause-wait":
			x.w.pause()
			x.w.wait()
			x.errs <- os.ErrDeadlineExceeded
		case "stop-wait":
			x.w.stop()
			go x.w.wait() // which also waits for the accepting to end
		}
	}
	return x.listener.Accept()
}

type tempErr struct{}

func (tempErr) Error() string   { return "temporary" }
func (tempErr) Timeout() bool   { return true }
func (tempErr) Temporary() bool { return true }

// acceptError: Start ends with the very error.
func acceptError(r *Run, g *rand.Rand, dl bool) {
	all := []error{errors.New("boom"), net.ErrClosed, tempErr{}, &net.OpError{Op: "accept", Err: errors.New("too many open files")}, os.ErrDeadlineExceeded}
	err := all[g.Intn(len(all))]
	n := g.Intn(4)
	w := newWorld(r, fmt.Sprintf("accept-error %v n=%d deadliner=%v", err, n, dl), dl)
	if g.Intn(2) == 0 {
		w.release = make(chan struct{})
	}
	w.start()
	for i := 0; i < n; i++ {
		w.send(i)
	}
	w.log.await("handler-start", n)
	w.lst.errs <- err
	got, ok := w.startReturned()
	if !ok {
		return
	}
	if got != err {
		w.fail("accept-error-lost", "Start returned %v, want %v", got, err)
	}
	waited := make(chan struct{})
	go func() { w.wait(); close(waited) }()
	if w.release != nil {
		close(w.release)
	}
	<-waited
	w.log.await("close", n)
	w.stop()
	w.done(true)
	r.Count("accept_errors", 1)
}

// storm: connections keep arriving while the server is paused, stopped and waited for concurrently.
func storm(r *Run, g *rand.Rand, dl bool) {
	total := 5 + g.Intn(40)
	how := []string{"pause", "stop", "both"}[g.Intn(3)]
	w := newWorld(r, fmt.Sprintf("storm total=%d how=%s deadliner=%v", total, how, dl), dl)
	var mu sync.Mutex
	jg := rand.New(rand.NewSource(g.Int63()))
	delay := func() {
		mu.Lock()
		k := jg.Intn(8)
		d := jg.Intn(400)
		mu.Unlock()
		switch k {
		case 0:
			runtime.Gosched()
		case 1, 2:
			time.Sleep(time.Duration(d) * time.Microsecond)
		}
	}
	w.delay = func(int) { delay() }
	w.lst.hook = func(*conn) { delay() }
	w.start()
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < total; i++ {
			w.send(i)
			delay()
		}
	}()
	for i := g.Intn(6); i > 0; i-- {
		delay()
	}
	switch how {
	case "pause":
		w.pause()
	case "stop":
		w.stop()
	default:
		w.pause()
		w.stop()
	}
	w.wait()
	wg.Wait()
	if !dl && how == "pause" {
		w.send(total)
	}
	if _, ok := w.startReturned(); !ok {
		return
	}
	w.wait()
	w.stop()
	w.done(false)
}

// groups: the functions over several servers.
func groups(r *Run, g *rand.Rand) {
	n := 1 + g.Intn(4)
	how := []string{"PauseAll", "StopAll", "WaitAll"}[g.Intn(3)]
	ws := make([]*world, n)
	srvs := make([]*tcp.Server, n)
	for i := range ws {
		ws[i] = newWorld(r, fmt.Sprintf("groups %s n=%d server=%d", how, n, i), true)
		ws[i].release = make(chan struct{})
		ws[i].lst.fails = g.Intn(3) == 0
		srvs[i] = ws[i].srv
		ws[i].start()
		for k := 0; k <= g.Intn(3); k++ {
			ws[i].send(k)
		}
	}
	for _, w := range ws {
		w.log.await("handler-start", 1)
		for len(w.lst.conns) > 0 {
			time.Sleep(50 * time.Microsecond)
		}
	}
	if n > 1 && g.Intn(3) == 0 {
		// one of them is already shut down
		w := ws[g.Intn(n)]
		if how == "StopAll" && g.Intn(2) == 0 {
			w.pause()
		} else if how == "PauseAll" {
			w.pause()
		}
		r.Count("groups_partly_shut", 1)
	}
	done := make(chan struct{})
	call := func() {
		for _, w := range ws {
			w.log.add(map[string]string{"PauseAll": "pause-call", "StopAll": "stop-call", "WaitAll": "wait-call"}[how], -1)
		}
		switch how {
		case "PauseAll":
			tcp.PauseAll(srvs)
		case "StopAll":
			tcp.StopAll(srvs)
		case "WaitAll":
			tcp.WaitAll(srvs)
		}
		for _, w := range ws {
			if how != "WaitAll" {
				w.log.add(map[string]string{"PauseAll": "pause-returned", "StopAll": "stop-returned"}[how], -1)
			}
			// all of them also wait
			if n := w.log.count("handler-start") - w.log.count("handler-end"); n > 0 {
				w.fail("group-wait-too-early", "%s returned with %d handlers running", how, n)
			}
		}
		close(done)
	}
	go call()
	order := g.Perm(n)
	if ev := map[string]string{"PauseAll": "deadline", "StopAll": "listener-closed"}[how]; ev != "" && g.Intn(2) == 0 {
		// a server that still has handlers running does not keep the others from being shut down
		for _, w := range ws {
			if !w.log.await(ev, 1) {
				w.fail("group-not-shut", "%s does not shut this server down while handlers are running", how)
			}
		}
		r.Count("groups_busy", 1)
	}
	for _, i := range order {
		jitter(g)
		close(ws[i].release)
	}
	select {
	case <-done:
	case <-time.After(patience):
		ws[0].fail("group-hangs", "%s did not return", how)
		return
	}
	for _, w := range ws {
		switch how {
		case "StopAll":
			if w.log.count("listener-closed") != 1 {
				w.fail("stop-does-not-close", "StopAll did not close the listener")
			}
		case "PauseAll":
			if w.log.count("listener-closed") != 0 {
				w.fail("pause-closes", "PauseAll closed the listener")
			}
		}
		if how == "WaitAll" {
			if w.log.count("start-returned") > 0 {
				w.fail("wait-stops", "WaitAll ended the accept loop")
			}
			w.stop()
		}
		if _, ok := w.startReturned(); !ok {
			return
		}
		w.stop()
		w.done(false)
	}
	r.Count("groups", 1)
}

// conns are the server's ends of real connections.
type conns struct {
	mu  sync.Mutex
	all []net.Conn
}

func (c *conns) add(n net.Conn) {
	c.mu.Lock()
	c.all = append(c.all, n)
	c.mu.Unlock()
}

// open tells how many of them are not closed.
func (c *conns) open() (n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, one := range c.all {
		if err := one.SetDeadline(time.Now()); !errors.Is(err, net.ErrClosed) {
			n++
		}
	}
	return n
}

// realTCP: loopback sockets, echo handlers, pause and stop under load.
func realTCP(r *Run, g *rand.Rand) {
	l, err := net.Listen("tcp4", "127.0.0.1:0")
	if err != nil {
		r.Inconclusive("cannot listen on loopback: %v", err)
		return
	}
	log := newLog()
	var running, total atomic.Int64
	var handled conns
	srv := tcp.NewServer(l, func(c net.Conn) {
		handled.add(c)
		running.Add(1)
		total.Add(1)
		b := make([]byte, 16)
		n, _ := c.Read(b)
		_, _ = c.Write(b[:n])
		running.Add(-1)
	})
	startCh := make(chan error, 1)
	go func() { startCh <- srv.Start() }()
	var answered atomic.Int64
	var wg sync.WaitGroup
	clients := 4 + g.Intn(8)
	for k := 0; k < clients; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c, err := net.Dial("tcp4", l.Addr().String())
			if err != nil {
				return
			}
			defer c.Close()
			_ = c.SetDeadline(time.Now().Add(patience))
			msg := fmt.Sprintf("hello-%d", k)
			_, _ = c.Write([]byte(msg))
			b := make([]byte, 16)
			n, err := c.Read(b)
			if err == nil {
				if string(b[:n]) != msg {
					r.Violate("cross-talk", k, "client %d got %q", k, b[:n])
				}
				answered.Add(1)
				// closed by the server afterwards
				if _, err = c.Read(b); err == nil {
					r.Violate("not-closed", k, "the connection stays open after its handler")
				} else if ne, ok := err.(net.Error); ok && ne.Timeout() {
					r.Violate("not-closed", k, "the connection stays open after its handler")
				}
			}
		}()
	}
	if g.Intn(2) == 0 {
		wg.Wait()
		if int(answered.Load()) != clients {
			r.Violate("not-handled", clients, "only %d of %d clients were answered", answered.Load(), clients)
		}
	} else {
		jitter(g)
	}
	pause := g.Intn(2) == 0
	if pause {
		srv.Pause()
		srv.Wait()
	} else {
		_ = srv.Stop()
		srv.Wait()
	}
	if n := running.Load(); n != 0 {
		r.Violate("wait-too-early", nil, "wait returned with %d handlers running (real sockets)", n)
	}
	if n := handled.open(); n != 0 {
		r.Violate("wait-before-close", nil, "wait returned with %d connections not closed (real sockets)", n)
	}
	before := total.Load()
	select {
	case <-startCh:
	case <-time.After(patience):
		r.Violate("start-does-not-return", nil, "Start did not return after pause=%v (real listener)", pause)
		return
	}
	if pause {
		c, err := net.Dial("tcp4", l.Addr().String())
		if err != nil {
			r.Violate("pause-closes", nil, "the listener is closed after pause: %v", err)
		} else {
			_ = c.Close()
		}
		_ = srv.Stop()
	}
	if c, err := net.DialTimeout("tcp4", l.Addr().String(), time.Second); err == nil {
		// somebody else may have got the port; only our own listener counts
		_ = c.Close()
		if _, err = l.Accept(); err == nil || !errors.Is(err, net.ErrClosed) {
			r.Violate("stop-does-not-close", nil, "the listener accepts after stop: %v", err)
		}
	}
	wg.Wait()
	srv.Wait()
	if total.Load() != before {
		r.Violate("handled-after-shutdown", nil, "%d connections were handled after shutdown and wait", total.Load()-before)
	}
	_ = log
	r.Count("tcp_clients", int64(clients))
	r.Eval(fmt.Sprint("tcp", clients, pause, answered.Load()))
}

// flush: what a handler has written reaches the peer although its connection is closed right afterwards.
func flush(r *Run, g *rand.Rand) {
	l, err := net.Listen("tcp4", "127.0.0.1:0")
	if err != nil {
		r.Inconclusive("cannot listen on loopback: %v", err)
		return
	}
	size := Pick(g, []int{1, 1000, 100000, 400000, 1 << 20, 3 << 20})
	data := Bytes(g, size)
	var handled conns
	srv := tcp.NewServer(l, func(c net.Conn) {
		handled.add(c)
		_, _ = c.Write(data)
	})
	startCh := make(chan error, 1)
	go func() { startCh <- srv.Start() }()
	n := 1 + g.Intn(4)
	var wg sync.WaitGroup
	lag := time.Duration(g.Intn(40)) * time.Millisecond
	for k := 0; k < n; k++ {
		c, err := net.Dial("tcp4", l.Addr().String())
		if err != nil {
			r.Inconclusive("cannot dial: %v", err)
			break
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer c.Close()
			_ = c.SetDeadline(time.Now().Add(2 * patience))
			time.Sleep(lag)
			got, err := io.ReadAll(c)
			if err != nil || !bytes.Equal(got, data) {
				r.Violate("data-lost-on-close", map[string]any{"size": size, "lag": lag.String()},
					"the handler wrote %d bytes, the peer got %d, %v", size, len(got), err)
			}
			r.Count("flushed", 1)
		}()
	}
	wg.Wait()
	_ = srv.Stop()
	srv.Wait()
	if n := handled.open(); n != 0 {
		r.Violate("wait-before-close", nil, "wait returned with %d connections not closed (real sockets)", n)
	}
	<-startCh
	r.Eval(fmt.Sprint("flush", size, n, lag))
}

// longHandlers: handlers that take seconds are waited for as well, and their connections are not closed meanwhile.
func longHandlers(r *Run, d time.Duration) (join func()) {
	var wg sync.WaitGroup
	for _, how := range []string{"pause", "stop", "wait"} {
		for _, n := range []int{1, 3} {
			how, n := how, n
			l, err := net.Listen("tcp4", "127.0.0.1:0")
			if err != nil {
				r.Inconclusive("cannot listen: %v", err)
				return func() {}
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer l.Close()
				var started sync.WaitGroup
				var finished, early atomic.Int64
				started.Add(n)
				srv := tcp.NewServer(l, func(c net.Conn) {
					started.Done()
					begin := time.Now()
					for time.Since(begin) < d {
						time.Sleep(d / 20)
						if _, err := c.Write([]byte("x")); err != nil {
							early.Add(1)
							break
						}
					}
					finished.Add(1)
				})
				startCh := make(chan error, 1)
				go func() { startCh <- srv.Start() }()
				for i := 0; i < n; i++ {
					c, err := net.Dial("tcp4", l.Addr().String())
					if err != nil {
						r.Inconclusive("cannot dial: %v", err)
						return
					}
					defer c.Close()
				}
				started.Wait()
				switch how {
				case "pause":
					srv.Pause()
				case "stop":
					_ = srv.Stop()
				}
				srv.Wait()
				if f := finished.Load(); f != int64(n) {
					r.Violate("wait-too-early", map[string]any{"how": how, "handlers": n, "duration": d.String()},
						"Wait after %s returned with %d of %d handlers (of %v each) done", how, f, n, d)
				}
				if early.Load() != 0 {
					r.Violate("closed-while-handled", how, "%d connections were closed while their handlers were running", early.Load())
				}
				r.Count("long_handlers", int64(n))
				r.Eval(fmt.Sprint("long", how, n))
			}()
		}
	}
	return wg.Wait
}

func main() {
	Main("C18", "scenarios of accepts, blocked handlers, pause, stop, wait and accept errors on instrumented listeners with and without deadlines, with injected delays, and on loopback sockets; distinct: scenario plus the order of events seen", func(r *Run) {
		n := r.N(1, 12)
		join := longHandlers(r, time.Duration(r.N(32, 70))*time.Second)
		for _, procs := range []int{1, 2, 8} {
			runtime.GOMAXPROCS(procs)
			g := r.Rng(fmt.Sprint("procs", procs))
			for i := 0; i < 25*n; i++ {
				r.Step("concurrent %d/%d", procs, i)
				concurrent(r, g, i%2 == 0)
			}
			for _, crowd := range []int{100, 300, 1100, map[int]int{1: 2500, 2: 4500, 8: r.N(1700, 5500)}[procs]} {
				// no number of connections is special
				r.Step("crowd %d/%d", procs, crowd)
				concurrentN(r, g, crowd%200 == 100, crowd)
				r.Count("crowd", int64(crowd))
			}
			for i := 0; i < 12*n; i++ {
				for _, how := range []string{"pause", "stop", "pause-wait", "stop-wait"} {
					r.Step("late accept %s %d/%d", how, procs, i)
					lateAccept(r, g, i%2 == 0, how)
				}
			}
			for i := 0; i < 60*n; i++ {
				r.Step("wait inside %d/%d", procs, i)
				waitInside(r, g)
			}
			for i := 0; i < 20*n; i++ {
				for _, how := range []string{"pause", "stop", "pause-wait", "stop-wait"} {
					r.Step("shut inside %s %d/%d", how, procs, i)
					shutInside(r, g, how)
				}
			}
			for i := 0; i < 30*n; i++ {
				r.Step("accept error %d/%d", procs, i)
				acceptError(r, g, i%2 == 0)
			}
			for i := 0; i < 100*n; i++ {
				r.Step("storm %d/%d", procs, i)
				storm(r, g, i%2 == 0)
			}
			for i := 0; i < 30*n; i++ {
				r.Step("groups %d/%d", procs, i)
				groups(r, g)
			}
			for i := 0; i < 12*n; i++ {
				r.Step("tcp %d/%d", procs, i)
				realTCP(r, g)
			}
			for i := 0; i < 12*n; i++ {
				r.Step("flush %d/%d", procs, i)
				flush(r, g)
			}
		}
		r.Step("long handlers")
		join()
		r.Floor("crowd", 3000)
		r.Floor("long_handlers", 12)
		r.Floor("dispatched_then_shut", 50)
		r.Floor("groups_busy", 10)
		r.Floor("handled", 1000)
		r.Floor("waits", 500)
		r.Floor("accepted_after_shutdown", 50)
		r.Floor("accept_errors", 50)
		r.Floor("tcp_clients", 50)
		r.Floor("flushed", 36)
	})
}
