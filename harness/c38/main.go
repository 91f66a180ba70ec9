//go:build go1.22

// Monitor of C38: long series of requests, connections and calls, all of them different, while the live heap, the goroutines
// and the finalization of ended connections are observed.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/coding"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/headers"
	"github.com/indigo-web/indigo/http/method"
	"github.com/indigo-web/indigo/http/query"
	"github.com/indigo-web/indigo/http/serve"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/address"
	"github.com/indigo-web/indigo/internal/keyvalue"
	"github.com/indigo-web/indigo/internal/stash"
	"github.com/indigo-web/indigo/internal/strlenmap"
	"github.com/indigo-web/indigo/internal/tcp"
	"github.com/indigo-web/indigo/internal/uridecode"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/inbuilt/middleware"
	"github.com/indigo-web/indigo/router/inbuilt/uri"
	"github.com/indigo-web/indigo/router/simple"
	"github.com/indigo-web/indigo/router/virtual"
)

func heap() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

const phases = 3

// judge decides over the live heap measured at the beginning and after each of the phases of n operations. What grows once
// (a buffer, a cache that's filled) doesn't count, only what keeps growing.
func judge(r *Run, name string, n int, per int64, h []int64) {
	growing := 0
	for i := 1; i < len(h); i++ {
		if h[i]-h[i-1] > per*int64(n)/2 {
			growing++
		}
	}
	total := h[len(h)-1] - h[0]
	c := map[string]any{"scenario": name, "operations_per_phase": n, "heap": h}
	if total > per*int64(n)*phases+256<<10 && growing >= 2 {
		r.Violate("memory-grows", c, "%s: the live heap grew by %d bytes over %d operations (%v)", name, total, n*phases, h)
	}
	r.Eval(fmt.Sprint(name, n))
	r.Count("phases", phases)
	r.Count("measured", int64(n*phases))
	r.Sample(name, c)
}

// calls measures a function called directly.
func calls(r *Run, name string, n int, per int64, f func(i int)) {
	r.Step("calls %s", name)
	var h []int64
	ok := r.Guard(name, name, func() {
		for i := 0; i < n/2; i++ {
			f(i)
		}
		h = append(h, heap())
		for p := 0; p < phases; p++ {
			for i := 0; i < n; i++ {
				f(n/2 + p*n + i)
			}
			h = append(h, heap())
		}
	})
	if ok {
		judge(r, name, n, per, h)
		r.Count("calls", int64(n*phases))
	}
}

// source is a connection that makes up its requests as it's read. Nothing written is kept.
type source struct {
	next      func(i int) []byte
	measure   func(i int)
	total     int
	i         int
	cur       []byte
	responses int
	tail      []byte
}

func (s *source) Read(p []byte) (int, error) {
	if len(s.cur) == 0 {
		if s.measure != nil {
			s.measure(s.i)
		}
		if s.i == s.total {
			return 0, io.EOF
		}
		s.cur = s.next(s.i)
		s.i++
	}
	n := copy(p, s.cur)
	s.cur = s.cur[n:]
	return n, nil
}

var responseMark = []byte("HTTP/1.1 ")

func (s *source) Write(b []byte) (int, error) {
	if bytes.HasPrefix(b, responseMark) {
		s.responses++
	}
	return len(b), nil
}
func (s *source) Close() error                     { return nil }
func (s *source) LocalAddr() net.Addr              { return &net.TCPAddr{Port: 80} }
func (s *source) RemoteAddr() net.Addr             { return &net.TCPAddr{Port: 12345} }
func (s *source) SetDeadline(time.Time) error      { return nil }
func (s *source) SetReadDeadline(time.Time) error  { return nil }
func (s *source) SetWriteDeadline(time.Time) error { return nil }

// series is one connection with very many requests.
func series(r *Run, name string, n int, per int64, rt router.Router, enc encryption.Token, next func(i int) string) {
	r.Step("series %s", name)
	var h []int64
	warm := n / 2
	s := &source{total: warm + phases*n, next: func(i int) []byte { return []byte(next(i)) }}
	s.measure = func(i int) {
		if i%1000 == 0 {
			r.Step("series %s %d", name, i)
		}
		if i >= warm && (i-warm)%n == 0 {
			h = append(h, heap())
		}
	}
	if !r.Guard(name, name, func() { serve.HTTP1(config.Default(), s, enc, rt) }) {
		return
	}
	if len(h) != phases+1 || s.responses < s.total {
		c := map[string]any{"scenario": name, "request": next(s.i - 1)}
		if s.responses > 1 {
			r.Violate("wears-out", c, "%s: the connection ended after %d of %d requests, all of them alike (%d responses)", name, s.i, s.total, s.responses)
		} else {
			r.Inconclusive("%s: only %d of %d requests were served with %d responses", name, s.i, s.total, s.responses)
		}
		return
	}
	judge(r, name, n, per, h)
	r.Count("requests", int64(s.total))
	r.Count("series", 1)
}

// conn is a connection whose end is observed by a finalizer.
type conn struct {
	in       []byte
	end      error
	failFrom int
	writes   int
	closed   atomic.Bool
	onClose  func()
	ballast  []byte
}

var errTimeout = fmt.Errorf("reading: %w", os.ErrDeadlineExceeded)

func (c *conn) Read(p []byte) (int, error) {
	if len(c.in) == 0 {
		return 0, c.end
	}
	n := copy(p, c.in)
	c.in = c.in[n:]
	return n, nil
}
func (c *conn) Write(b []byte) (int, error) {
	if c.writes++; c.failFrom > 0 && c.writes >= c.failFrom {
		return 0, errors.New("broken pipe")
	}
	return len(b), nil
}
func (c *conn) Close() error {
	if !c.closed.Swap(true) && c.onClose != nil {
		c.onClose()
	}
	return nil
}
func (c *conn) LocalAddr() net.Addr              { return &net.TCPAddr{Port: 80} }
func (c *conn) RemoteAddr() net.Addr             { return &net.TCPAddr{Port: 12345} }
func (c *conn) SetDeadline(time.Time) error      { return nil }
func (c *conn) SetReadDeadline(time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(time.Time) error { return nil }

var made, collected atomic.Int64

func newConn(i int) *conn {
	c := &conn{end: io.EOF, ballast: make([]byte, 512)}
	id := fmt.Sprintf("%08d-%s", i, strings.Repeat("z", 40))
	get := "GET /hello/" + id + "?q" + id + "=1 HTTP/1.1\r\nHost: h" + id + ".example\r\nX-" + id + ": v\r\nCookie: c" + id + "=1\r\n"
	post := "POST /body/" + id + " HTTP/1.1\r\nContent-Length: 30\r\n\r\n" + id[:30]
	switch i % 8 {
	case 0:
		c.in = []byte(get + "\r\n" + post)
	case 1:
		c.in, c.end = []byte(get+"\r\n"), errTimeout
	case 2:
		c.in, c.failFrom = []byte(get+"\r\n"+post), 1+i/8%2
	case 3:
		c.in = []byte(get + "\r\nBAD" + id + " / HTTP/1.1\r\n\r\n")
	case 4:
		c.in = []byte(get + "Connection: close\r\n\r\n")
	case 5:
		c.in = []byte("GET /hijack/" + id + " HTTP/1.1\r\n\r\n" + id)
	case 6:
		c.in = []byte("POST /body/" + id + " HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n8\r\n" + id[:8] + "\r\n5\r\nab")
	case 7:
		c.in = []byte("POST /unread/" + id + " HTTP/1.1\r\nContent-Length: 3000\r\n\r\n" + strings.Repeat("u", 3000) + "GET /stream/" + id + " HTTP/1.1\r\nConnection: close\r\n\r\n")
	}
	made.Add(1)
	runtime.SetFinalizer(c, func(*conn) { collected.Add(1) })
	return c
}

// settled waits until (nearly) all the connections made so far are collected.
func settled(r *Run, name string, slack int64) {
	for i := 0; ; i++ {
		runtime.GC()
		if made.Load()-collected.Load() <= slack {
			r.Count("collected", collected.Swap(0))
			made.Store(0)
			return
		}
		if i == 200 {
			r.Violate("connection-retained", map[string]any{"scenario": name}, "%s: %d of %d ended connections are still referred to", name, made.Load()-collected.Load(), made.Load())
			made.Store(0)
			collected.Store(0)
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
}

func newRouter() *inbuilt.Router {
	rt := inbuilt.New().
		Get("/hello/{id}", func(req *http.Request) *http.Response {
			_, _ = req.Query.Unwrap()
			_, _ = req.Cookies()
			return http.String(req, req.Params.Value("id"))
		}).
		Post("/body/{id}", func(req *http.Request) *http.Response {
			b, err := req.Body.Bytes()
			if err != nil {
				return http.Error(req, err)
			}
			return http.Bytes(req, b)
		}).
		Post("/unread/{id}", http.Respond).
		Get("/stream/{id}", func(req *http.Request) *http.Response {
			return req.Respond().Attachment(strings.NewReader(req.Path), -1)
		}).
		Get("/hijack/{id}", func(req *http.Request) *http.Response {
			cl, err := req.Hijack()
			if err != nil {
				return http.Error(req, err)
			}
			_, _ = cl.Read()
			_ = cl.Close()
			return nil
		})
	return rt
}

// connections serves many connections one after another.
func connections(r *Run, name string, n int, rt router.Router) {
	goroutines := runtime.NumGoroutine()
	calls(r, "connections/"+name, n, 100, func(i int) {
		serve.HTTP1(config.Default(), newConn(i), encryption.Plain, rt)
	})
	settled(r, name, 3)
	r.Count("connections", int64(n*phases))
	quiet(r, name, goroutines)
}

func quiet(r *Run, name string, before int) {
	for i := 0; runtime.NumGoroutine() > before+2; i++ {
		if i == 3000 {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			r.Violate("goroutines", map[string]any{"scenario": name, "stacks": string(buf[:min(len(buf), 4000)])}, "%s: %d goroutines, before there were %d", name, runtime.NumGoroutine(), before)
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	r.Count("goroutines_checked", 1)
}

// listener hands out connections.
type listener struct {
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
}

func newListener() *listener { return &listener{ch: make(chan net.Conn), done: make(chan struct{})} }
func (l *listener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}
func (l *listener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *listener) Addr() net.Addr { return &net.TCPAddr{Port: 80} }

// through makes the function that passes a connection through a listener and returns when it's closed; w connections at a time.
func through(r *Run, l *listener, w int) (send func(i int), join func()) {
	sem := make(chan struct{}, w)
	var open sync.WaitGroup
	send = func(i int) {
		sem <- struct{}{}
		open.Add(1)
		c := newConn(i)
		c.onClose = func() { <-sem; open.Done() }
		l.ch <- c
	}
	return send, open.Wait
}

func servers(r *Run, n int) {
	rt := newRouter().Initialize()
	for _, w := range []int{1, 50} {
		name := fmt.Sprintf("tcp server, %d at a time", w)
		goroutines := runtime.NumGoroutine()
		l := newListener()
		s := tcp.NewServer(l, func(c net.Conn) { serve.HTTP1(config.Default(), c, encryption.Plain, rt) })
		ended := make(chan struct{})
		go func() { _ = s.Start(); close(ended) }()
		send, join := through(r, l, w)
		calls(r, name, n, 100, func(i int) {
			send(i)
			if i%100 == 0 {
				r.Step("%s %d", name, i)
				join()
			}
		})
		join()
		// the server itself is still running
		settled(r, name, int64(w)+3)
		_ = s.Stop()
		<-ended
		s.Wait()
		quiet(r, name, goroutines)
		r.Count("connections", int64(n*phases))
	}
}

func apps(r *Run, n int) {
	name := "application"
	goroutines := runtime.NumGoroutine()
	l := newListener()
	app := indigo.New("127.0.0.1:0").Listen("fake:1", indigo.Listener{Listen: func(string, string) (net.Listener, error) { return l, nil },
		Handler: func(c net.Conn, rt router.Router) { serve.HTTP1(config.Default(), c, encryption.Plain, rt) }})
	started := make(chan struct{})
	app.OnStart(func() { close(started) })
	ended := make(chan error, 1)
	go func() { ended <- app.Serve(newRouter()) }()
	select {
	case <-started:
	case err := <-ended:
		r.Inconclusive("the application did not start: %v", err)
		return
	}
	send, join := through(r, l, 8)
	calls(r, name, n, 100, func(i int) {
		send(i)
		if i%100 == 0 {
			r.Step("%s %d", name, i)
			join()
		}
	})
	join()
	settled(r, name, 12)
	app.Stop()
	<-ended
	quiet(r, name, goroutines)
	r.Count("connections", int64(n*phases))
}

type nowhere struct{}

func (nowhere) Printf(string, ...any) {}

type doubling struct{ out []byte }

func (d *doubling) Token() string { return "double" }
func (d *doubling) Encode(in []byte) ([]byte, error) {
	d.out = append(append(d.out[:0], in...), in...)
	return d.out, nil
}
func (d *doubling) Decode(in []byte) ([]byte, error) { return in[:len(in)/2], nil }

func direct(r *Run, n int) {
	pad := strings.Repeat("p", 48)
	id := func(i int) string { return fmt.Sprintf("%09d%s", i, pad) }

	buff := make([]byte, 0, 256)
	calls(r, "percent-decoding", n, 8, func(i int) {
		_, _ = uridecode.Decode([]byte("/%41/"+id(i)+"%20%zz"[:3*(i%3)]), buff[:0])
		_, _ = uridecode.Decode([]byte("/plain/"+id(i)), nil)
	})
	calls(r, "method parsing", n, 8, func(i int) { method.Parse(id(i)); method.Parse(fmt.Sprintf("M%06d", i%1000000)) })
	calls(r, "status", n, 8, func(i int) {
		_ = status.Text(status.Code(i))
		_ = status.Line(status.Code(i))
		_ = status.NewError(status.Code(i), id(i)).Error()
	})
	m := coding.NewManager(64)
	m.AddCoding(func([]byte) coding.Coding { return new(doubling) })
	calls(r, "codings", n, 8, func(i int) {
		data := []byte(id(i))
		_, _ = m.Encode("double", data)
		_, _ = m.Decode("double", data)
		_, _ = m.Encode(id(i), data)
		_, _ = m.Decode(id(i), data)
		_, _ = m.Encode("identity", data)
	})
	sm := strlenmap.New[int]()
	for i := 0; i < 100; i++ {
		sm.Insert(id(i), i)
		sm.Insert(id(i)[:i%20], i)
	}
	calls(r, "length-indexed map", n, 8, func(i int) { sm.Get(id(i)); sm.Get(id(i)[:i%57]); sm.Get(id(i) + id(i)) })
	calls(r, "addresses", n, 8, func(i int) {
		for _, a := range []string{id(i) + ":80", fmt.Sprintf("10.%d.%d.%d:80", i>>16&255, i>>8&255, i&255), ":" + fmt.Sprint(i), fmt.Sprintf("[::%x:%x]:1", i>>16, i&65535)} {
			address.Normalize(a)
			address.IsIP(a)
			address.IsLocalhost(a)
		}
	})
	calls(r, "path normalization", n, 8, func(i int) { uri.Normalize("/" + id(i) + "///"[:i%3]) })
	calls(r, "escaping", n, 8, func(i int) { _ = http.Escape("/\n" + id(i)) })
	calls(r, "header values", n, 8, func(i int) {
		v := "text/" + id(i) + "; charset=" + id(i) + ";q=0.5"
		headers.ValueOf(v)
		headers.CharsetOf(v)
		headers.QualityOf(v)
		headers.ParamOf(v, id(i))
	})
	kv := keyvalue.New()
	calls(r, "key-value storage", n, 8, func(i int) {
		if i%7 == 0 {
			kv.Clear()
		}
		kv.Add(id(i), id(i+1))
		kv.Values(id(i))
		kv.Keys()
		kv.Clone()
		kv.Has(id(i - 1))
	})
	q := query.New(keyvalue.New())
	calls(r, "queries", n, 8, func(i int) {
		q.Set([]byte(id(i) + "=" + id(i) + "&a=%41" + id(i) + "%"[:i%2]))
		_, _ = q.Get(id(i))
		_, _ = q.Unwrap()
	})
	jar := cookie.NewJar()
	calls(r, "cookies", n, 8, func(i int) { _ = cookie.Parse(jar.Clear(), id(i)+"=1; x"+id(i)+"="+id(i)) })
	var piece []byte
	reader := stash.New(func() ([]byte, error) {
		if piece == nil {
			return nil, io.EOF
		}
		p := piece
		piece = nil
		return p, nil
	})
	small := make([]byte, 40)
	calls(r, "stream adapter", n, 8, func(i int) {
		piece = []byte(id(i))
		for j := 0; j <= i%4; j++ {
			_, _ = reader.Read(small)
		}
		reader.Reset()
	})
	s := &source{total: 1 << 40, next: func(i int) []byte { return []byte(id(i)) }}
	cl := tcp.NewClient(s, time.Second, make([]byte, 32))
	calls(r, "connection client", n, 8, func(i int) {
		data, _ := cl.Read()
		if i%3 == 0 {
			cl.Unread(data[len(data)/2:])
		}
		if i%5 == 0 {
			cl.Unread([]byte(id(i)))
		}
		_ = cl.Write([]byte(id(i)))
		cl.Remote()
	})
}

// endless: whatever a client never stops sending, the server either refuses it or keeps nothing of it.
func endless(r *Run, total int) {
	post := "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n"
	unread := inbuilt.New().Get("/", http.Respond).Post("/", http.Respond).Initialize()
	read := inbuilt.New().Post("/", func(req *http.Request) *http.Response {
		if err := req.Body.Callback(func([]byte) error { return nil }); err != nil {
			return http.Error(req, err)
		}
		return http.Respond(req)
	}).Initialize()
	piecewise := inbuilt.New().Post("/", func(req *http.Request) *http.Response {
		for {
			if _, err := req.Body.Retrieve(); err != nil {
				return http.Respond(req)
			}
		}
	}).Initialize()
	stream := inbuilt.New().Post("/", func(req *http.Request) *http.Response {
		_, _ = io.Copy(io.Discard, req.Body)
		return http.Respond(req)
	}).Initialize()
	hijack := inbuilt.New().Post("/", func(req *http.Request) *http.Response {
		if cl, err := req.Hijack(); err == nil {
			for {
				if _, err = cl.Read(); err != nil {
					break
				}
			}
		}
		return nil
	}).Initialize()
	type flood struct{ name, begin, again string }
	var floods []flood
	for _, b := range []string{"", "GET ", "GET /", "GET /?", "GET / HTTP/1.1", "GET / HTTP/1.1\r\n", "GET / HTTP/1.1\r\nA", "GET / HTTP/1.1\r\nA: b", "GET / HTTP/1.1\r\nContent-Length: ", "GET / HTTP/1.1\r\nTransfer-Encoding: ",
		"GET / HTTP/1.1\r\nConnection: ", "GET / HTTP/1.1\r\nUpgrade: ", "GET / HTTP/1.1\r\nContent-Type: ", "GET / HTTP/1.1\r\nTrailer: ", "GET / HTTP/1.1\r\nContent-Encoding: ",
		post + "\r\n", post + "\r\n5", post + "\r\n5;", post + "\r\n5\r\n", post + "\r\n0\r\n", post + "Trailer: a\r\n\r\n0\r\n", post + "Trailer: a\r\n\r\n0\r\na: ",
		"POST / HTTP/1.1\r\nContent-Length: 400000000\r\n\r\n"} {
		for _, a := range []string{"a", " ", "\r\n", "\n", "a: b\r\n", "0", "0, ", "chunked, ", "gzip,", "/", "a=b&", "%41", "5\r\nhello\r\n", "5;ext\r\nhello\r\n", "GET / HTTP/1.1\r\n\r\n", "\x00", ";"} {
			floods = append(floods, flood{fmt.Sprintf("%.60q then %q", b, a), b, a})
		}
	}
	for i, f := range floods {
		routers := []router.Router{unread, read, piecewise, stream, hijack}
		rt, kind := routers[i%5], []string{"unread", "callback", "pieces", "stream", "hijack"}[i%5]
		r.Step("endless %s %s", f.name, kind)
		block := []byte(strings.Repeat(f.again, 1+4095/len(f.again)))
		blocks := total / len(block)
		var base, peak int64
		s := &source{total: blocks, next: func(i int) []byte {
			if i == 0 {
				return []byte(f.begin)
			}
			return block
		}}
		if f.begin == "" {
			s.next = func(int) []byte { return block }
		}
		s.measure = func(i int) {
			if i == 0 {
				base = heap()
			} else if i%(blocks/3) == 0 {
				r.Step("endless %s %s %d", f.name, kind, i)
				if h := heap() - base; h > peak {
					peak = h
				}
			}
		}
		if !r.Guard("endless "+f.name, f.name, func() { serve.HTTP1(config.Default(), s, encryption.Plain, rt) }) {
			continue
		}
		r.Eval("endless" + f.name + kind)
		r.Count("endless", 1)
		if s.i < blocks {
			r.Count("endless_refused", 1)
		} else {
			r.Count("endless_consumed", 1)
		}
		if peak > int64(total)/3 {
			r.Violate("endless", map[string]any{"input": f.name, "body": kind}, "%s: the live heap grew by %d bytes while %d were received", f.name, peak, total)
		}
	}
}

func main() {
	Main("C38", "series of requests on one connection, series of connections, and series of direct calls, all operations different from each other; distinct: scenarios times length", func(r *Run) {
		log.SetOutput(io.Discard)
		n := r.N(12000, 100000)
		dir, err := os.MkdirTemp("", "c38")
		if err != nil {
			r.Inconclusive("no scratch directory: %v", err)
			return
		}
		defer os.RemoveAll(dir)
		_ = os.WriteFile(filepath.Join(dir, "file.txt"), bytes.Repeat([]byte("content "), 100), 0o600)

		id := func(i int) string { return fmt.Sprintf("%09d%s", i, "-0123456789-0123456789-0123456789-0123456789") }
		hdrs := func(i int) string {
			return "Host: h" + id(i) + ".example\r\nX-" + id(i) + ": " + id(i) + "\r\nCookie: " + id(i) + "=" + id(i) + "\r\nUser-Agent: " + id(i) + "\r\nContent-Type: text/" + id(i) + "\r\nAccept-Encoding: " + id(i) + "\r\n"
		}
		get := func(m, path string) func(i int) string {
			return func(i int) string {
				return m + " " + path + id(i) + "?" + id(i) + "=%41" + id(i) + " HTTP/1.1\r\n" + hdrs(i) + "\r\n"
			}
		}
		fixed := func(m, path string) func(i int) string {
			return func(i int) string {
				return m + " " + path + "?" + id(i) + "=" + id(i) + " HTTP/1.1\r\n" + hdrs(i) + "\r\n"
			}
		}
		post := func(path string) func(i int) string {
			return func(i int) string {
				body := strings.Repeat(id(i), 1+i%20)
				if i%2 == 0 {
					return fmt.Sprintf("POST %s%s HTTP/1.1\r\n%sContent-Length: %d\r\n\r\n%s", path, id(i), hdrs(i), len(body), body)
				}
				return fmt.Sprintf("POST %s%s HTTP/1.1\r\n%sTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n0\r\n\r\n", path, id(i), hdrs(i), len(body), body)
			}
		}
		look := func(req *http.Request) *http.Response {
			_, _ = req.Query.Unwrap()
			_, _ = req.Cookies()
			req.Headers.Values("host")
			req.Headers.Keys()
			return req.Respond().Header("X-Echo", req.Headers.Value("user-agent")).Cookie(cookie.New("a", req.Path)).String(req.Path)
		}
		echo := func(req *http.Request) *http.Response {
			b, err := req.Body.Bytes()
			if err != nil {
				return http.Error(req, err)
			}
			return http.Bytes(req, b)
		}
		type model struct{ A, B string }
		all := func(rt *inbuilt.Router) router.Router {
			return rt.
				RouteError(func(req *http.Request) *http.Response { return http.Code(req, status.Teapot).String(req.Path) }, status.NotFound).
				Post("/echo/{id}", echo).Post("/unread/{id}", look).
				Post("/piece/{id}", func(req *http.Request) *http.Response { _, _ = req.Body.Retrieve(); return look(req) }).
				Post("/read/{id}", func(req *http.Request) *http.Response { _, _ = io.Copy(io.Discard, req.Body); return look(req) }).
				Get("/sized/{id}", func(req *http.Request) *http.Response {
					return req.Respond().Attachment(strings.NewReader(req.Path), len(req.Path))
				}).
				Get("/unsized/{id}", func(req *http.Request) *http.Response {
					return req.Respond().Attachment(strings.NewReader(req.Path), -1)
				}).
				Get("/json/{id}", func(req *http.Request) *http.Response { return http.JSON(req, model{req.Path, req.Path}) }).
				Get("/panic/{id}", func(req *http.Request) *http.Response { panic(req.Path) }, middleware.Recover).
				Get("/nil/{id}", func(req *http.Request) *http.Response { return nil }).
				Get("/err/{id}", func(req *http.Request) *http.Response { return http.Error(req, errors.New(req.Path)) }).
				Get("/mw/{id}", look, middleware.LogRequests(nowhere{}), middleware.ServerHeader(), middleware.Redirect("/mw", "/")).
				Get("/dyn/{id}/x/{other}", look).Get("/dyn/{id}", look).
				Initialize()
		}
		static := inbuilt.New().Get("/", look).Get("/hello", look).Post("/hello", look).Alias("/alias", "/hello").
			Mutator(func(req *http.Request) {}).Static("/static", dir).Initialize()
		dynamic := all(inbuilt.New())
		hosts := virtual.New().Host("known.example", inbuilt.New()).Initialize()
		hostsDefault := virtual.New().Host("known.example", inbuilt.New()).Default(inbuilt.New().Get("/", look)).Initialize()
		https := inbuilt.New().Use(middleware.HTTPSOnly()).Get("/{id}", look).Initialize()
		plain := simple.New(look, func(req *http.Request) *http.Response { return http.Error(req, req.Env.Error) }).Initialize()

		type scenario struct {
			name string
			rt   router.Router
			next func(i int) string
		}
		for _, s := range []scenario{
			{"static route", static, fixed("GET", "/hello")},
			{"unknown path", static, get("GET", "/unknown/")},
			{"alias", static, fixed("GET", "/alias")},
			{"other method", static, fixed("DELETE", "/hello")},
			{"trace", static, fixed("TRACE", "/hello")},
			{"file", static, fixed("GET", "/static/file.txt")},
			{"missing file", static, get("GET", "/static/")},
			{"dynamic route", dynamic, get("GET", "/dyn/")},
			{"unknown dynamic path", dynamic, get("GET", "/dyn/unknown/path/")},
			{"head", dynamic, get("HEAD", "/dyn/")},
			{"trace of dynamic", dynamic, get("TRACE", "/dyn/")},
			{"other method of dynamic", dynamic, get("PATCH", "/dyn/")},
			{"body", dynamic, post("/echo/")},
			{"body left unread", dynamic, post("/unread/")},
			{"body read partly", dynamic, post("/piece/")},
			{"body read as stream", dynamic, post("/read/")},
			{"sized stream", dynamic, get("GET", "/sized/")},
			{"unsized stream", dynamic, get("GET", "/unsized/")},
			{"json", dynamic, get("GET", "/json/")},
			{"panic", dynamic, get("GET", "/panic/")},
			{"no response", dynamic, get("GET", "/nil/")},
			{"error", dynamic, get("GET", "/err/")},
			{"middlewares", dynamic, get("GET", "/mw/")},
			{"unknown host", hosts, fixed("GET", "/")},
			{"default host", hostsDefault, fixed("GET", "/")},
			{"https only", https, get("GET", "/")},
			{"simple router", plain, get("GET", "/any/")},
			{"upgrade", dynamic, func(i int) string {
				return "GET /dyn/" + id(i) + " HTTP/1.1\r\nUpgrade: " + id(i) + ", HTTP/1.1\r\nConnection: upgrade\r\n" + hdrs(i) + "\r\n"
			}},
		} {
			series(r, s.name, n, 8, s.rt, encryption.Plain, s.next)
		}

		endless(r, r.N(6, 40)<<20)
		direct(r, r.N(20000, 200000))
		connections(r, "static router", r.N(2000, 20000), static)
		connections(r, "dynamic router", r.N(2000, 20000), newRouter().Initialize())
		connections(r, "virtual hosts", r.N(2000, 20000), virtual.New().Host("a.example", inbuilt.New()).Default(newRouter()).Initialize())
		servers(r, r.N(2000, 20000))
		apps(r, r.N(2000, 20000))

		r.Floor("series", 28)
		r.Floor("endless", 300)
		r.Floor("endless_refused", 100)
		r.Floor("endless_consumed", 20)
		r.Floor("requests", 28*int64(n)*phases)
		r.Floor("calls", 500000)
		r.Floor("connections", 30000)
		r.Floor("collected", 30000)
		r.Floor("goroutines_checked", 5)
	})
}
