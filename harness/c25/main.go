//go:build go1.22

// Monitor of C25: the effective configuration is compared leaf by leaf with the partial one and the documented defaults,
// and instrumented connections and streams record which buffer sizes, deadlines and headers the server really uses.
package main

import (
	"bytes"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
	. "github.com/indigo-web/indigo/internal/zzverif/vsrv"
	"github.com/indigo-web/indigo/router/inbuilt"
)

// documented are the defaults as config.Default documents them.
var documented = map[string]any{
	"URL.BufferSize.Default": 2048, "URL.BufferSize.Maximal": 65535, "URL.Query.PreAlloc": 10,
	"Headers.Number.Default": 10, "Headers.Number.Maximal": 50, "Headers.MaxKeyLength": 100, "Headers.MaxValueLength": 8192,
	"Headers.KeySpace.Default": 1024, "Headers.KeySpace.Maximal": 4096, "Headers.ValueSpace.Default": 1024, "Headers.ValueSpace.Maximal": 8192,
	"Headers.MaxEncodingTokens": 15, "Headers.CookiesPreAllocate": 5,
	"Body.MaxSize": 512 << 20, "Body.MaxChunkSize": 128 << 10, "Body.DecodingBufferSize": 8 << 10,
	"HTTP.ResponseBuffSize": 1024, "HTTP.FileBuffSize": 64 << 10,
	"TCP.ReadBufferSize": 4096, "TCP.ReadTimeout": 90 * time.Second,
}

type leaf struct {
	name string
	v    reflect.Value
}

func leaves(prefix string, v reflect.Value, list *[]leaf) {
	for i := 0; i < v.NumField(); i++ {
		name := prefix + v.Type().Field(i).Name
		f := v.Field(i)
		if f.Kind() == reflect.Struct {
			leaves(name+".", f, list)
			continue
		}
		*list = append(*list, leaf{name, f})
	}
}

func leavesOf(c *config.Config) (list []leaf) {
	leaves("", reflect.ValueOf(c).Elem(), &list)
	return list
}

func set(g *rand.Rand, f reflect.Value) {
	switch f.Kind() {
	case reflect.Int, reflect.Int64:
		f.SetInt(Pick(g, []int64{1, -1, 2, 16, 100, 4096, 65536, 1 << 40, int64(g.Intn(1 << 20)), -int64(g.Intn(1000))}))
	case reflect.Uint, reflect.Uint64:
		f.SetUint(Pick(g, []uint64{1, 2, 100, 1 << 40, 1<<63 + 5, uint64(g.Intn(1 << 20))}))
	case reflect.Map:
		m := map[string]string{}
		for n := g.Intn(3); n > 0; n-- {
			m["X-"+Word(g, Alnum, 1, 5)] = Word(g, Alnum, 0, 5)
		}
		f.Set(reflect.ValueOf(m))
	}
}

func fill(r *Run, g *rand.Rand, i int) {
	var src config.Config
	ls := leavesOf(&src)
	mode := i % 3
	for j, l := range ls {
		switch {
		case i < len(ls):
			if j == i { // exactly one set
				set(g, l.v)
			}
		case i < 2*len(ls):
			if j != i-len(ls) { // exactly one unset
				set(g, l.v)
			}
		case Chance(g, []int{20, 50, 80}[mode]):
			set(g, l.v)
		}
	}
	copied := src
	c := fmt.Sprintf("%+v", src)
	r.Step("fill %s", c)
	def := config.Default()
	var got config.Config
	if !r.Guard("fill", c, func() { got = config.Fill(src) }) {
		return
	}
	r.Eval("fill" + c)
	if !reflect.DeepEqual(src, copied) {
		r.Violate("fill/source", c, "filling modifies the given configuration")
	}
	gl, dl := leavesOf(&got), leavesOf(&def)
	for j, l := range ls {
		want := l.v.Interface()
		kind := "kept"
		if l.v.IsZero() {
			want, kind = dl[j].v.Interface(), "defaulted"
		}
		r.Count(kind, 1)
		if !reflect.DeepEqual(gl[j].v.Interface(), want) {
			r.Violate("fill/"+kind+"/"+l.name, c, "%s is %v, given %v, default %v", l.name, gl[j].v.Interface(), l.v.Interface(), dl[j].v.Interface())
		}
	}
	again := config.Fill(got)
	if !reflect.DeepEqual(again, got) {
		r.Violate("fill/idempotent", c, "filling twice gives %+v, once %+v", again, got)
	}
	if src.Headers.Default == nil && got.Headers.Default != nil {
		// the defaults stay what they are, whatever is made of a configuration
		got.Headers.Default["X-Changed"] = "1"
		if now := config.Default(); !reflect.DeepEqual(now, def) {
			r.Violate("fill/shared", c, "changing a configuration changes the defaults to %+v", now)
			delete(got.Headers.Default, "X-Changed")
		}
		r.Count("changed", 1)
	}
}

func defaults(r *Run) {
	def := config.Default()
	for _, l := range leavesOf(&def) {
		r.Eval("default" + l.name)
		if l.v.IsZero() {
			r.Violate("default/"+l.name, nil, "the default of %s is zero", l.name)
		}
		if want, ok := documented[l.name]; ok && fmt.Sprint(l.v.Interface()) != fmt.Sprint(want) {
			r.Violate("default/"+l.name, nil, "the default of %s is %v, documented %v", l.name, l.v.Interface(), want)
		}
	}
	if !reflect.DeepEqual(config.Fill(config.Config{}), def) {
		r.Violate("default/empty", nil, "filling an empty configuration gives %+v", config.Fill(config.Config{}))
	}
}

// recorder is a connection that records how it is read.
type recorder struct {
	net.Conn
	mu        sync.Mutex
	sizes     map[int]int
	deadlines []time.Duration
	reads     int
	unguarded int
	armed     bool
}

func (c *recorder) Read(p []byte) (int, error) {
	c.mu.Lock()
	c.reads++
	c.sizes[len(p)]++
	if !c.armed {
		c.unguarded++
	}
	c.armed = false
	c.mu.Unlock()
	return c.Conn.Read(p)
}

func (c *recorder) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	c.deadlines = append(c.deadlines, time.Until(t))
	c.armed = true
	c.mu.Unlock()
	return c.Conn.SetReadDeadline(t)
}
func (c *recorder) SetDeadline(t time.Time) error { return c.SetReadDeadline(t) }

type measured struct {
	data []byte
	max  int
	size map[int]int
}

func (m *measured) Read(p []byte) (int, error) {
	m.size[len(p)]++
	if len(p) > m.max {
		m.max = len(p)
	}
	if len(m.data) == 0 {
		return 0, io.EOF
	}
	n := copy(p, m.data)
	m.data = m.data[n:]
	return n, nil
}

func genHeaders(g *rand.Rand) map[string]string {
	m := map[string]string{}
	for n := g.Intn(5); n > 0; n-- {
		m["X-Def-"+Word(g, Upper, 1, 3)] = "v" + Word(g, Alnum+" ;=/", 0, 12) + "v"
	}
	if g.Intn(60) == 0 {
		for n := g.Intn(150); n > 0; n-- {
			m[fmt.Sprintf("X-Def-%d", n)] = Word(g, Alnum, 0, Pick(g, []int{10, 10, 5000}))
		}
	}
	if Chance(g, 30) {
		m["Server"] = "my server"
	}
	return m
}

// effects: scripted connections with a partial configuration, through the server loop.
func effects(r *Run, g *rand.Rand) {
	var cfg config.Config
	cfg.TCP.ReadBufferSize = Pick(g, []int{0, 0, 1, 3, 17, 500, 5000, 70000})
	cfg.TCP.ReadTimeout = Pick(g, []time.Duration{0, 0, time.Second, 7 * time.Second, time.Hour, 300 * time.Millisecond})
	cfg.HTTP.ResponseBuffSize = Pick(g, []int{0, 1, 10, 5000, 100000})
	cfg.HTTP.FileBuffSize = Pick(g, []int{0, 0, 16, 17, 20, 100, 4096, 65536, 200000})
	cfg.Headers.CookiesPreAllocate = Pick(g, []int{0, 1, 100})
	cfg.URL.Query.PreAlloc = Pick(g, []int{0, 1, 100})
	cfg.Headers.Number.Default = Pick(g, []int{0, 1, 30})
	cfg.Headers.KeySpace.Default = Pick(g, []int{0, 1, 300})
	cfg.Headers.ValueSpace.Default = Pick(g, []int{0, 1, 300})
	cfg.URL.BufferSize.Default = Pick(g, []int{0, 1, 300})
	cfg.Body.DecodingBufferSize = Pick(g, []int64{0, 1, 300})
	if Chance(g, 60) {
		cfg.Headers.Default = genHeaders(g)
	}
	full := config.Fill(cfg)
	readBuf := cfg.TCP.ReadBufferSize
	if readBuf == 0 {
		readBuf = 4096
	}
	timeout := cfg.TCP.ReadTimeout
	if timeout == 0 {
		timeout = 90 * time.Second
	}
	fileBuf := cfg.HTTP.FileBuffSize
	if fileBuf == 0 {
		fileBuf = 64 << 10
	}
	def := cfg.Headers.Default
	if def == nil {
		def = config.DefaultHeaders
	}
	var stream []byte
	n := 1 + g.Intn(4)
	gen := Gen{Methods: []string{"GET", "POST"}, KeepAlive: true, Chunked: 50, BodyMax: 2000, NoQuery: false}
	for i := 0; i < n; i++ {
		stream = append(stream, gen.Next(g).Wire...)
	}
	conn := &Conn{In: stream}
	if Chance(g, 50) {
		conn.Cuts = RandomCuts(g, len(stream))
	}
	c := map[string]any{"config": fmt.Sprintf("%+v", cfg), "stream": Q(stream)}
	r.Step("effects %v", c)
	type plan struct {
		kind     string
		content  []byte
		stream   *measured
		override string
		value    string
	}
	var plans []plan
	ok := Serve(r, "effects", c, full, conn, Router{Req: func(req *http.Request) *http.Response {
		p := plan{kind: Pick(g, []string{"text", "sized", "unsized", "cookies", "nil"})}
		resp := req.Respond()
		_, _ = req.Cookies()
		switch p.kind {
		case "text":
			p.content = Bytes(g, g.Intn(Pick(g, []int{3, 100, 20000})))
			resp.Bytes(p.content)
		case "cookies":
			resp.Cookie(cookie.New("a", "b"))
		case "sized", "unsized":
			p.content = Bytes(g, 1+g.Intn(Pick(g, []int{3, 100, 3 * fileBuf})))
			p.stream = &measured{data: p.content, size: map[int]int{}}
			size := len(p.content)
			if p.kind == "unsized" {
				size = -1
			}
			resp.Attachment(p.stream, size)
		case "nil":
			plans = append(plans, p)
			return nil
		}
		if Chance(g, 40) {
			for k := range def {
				p.override, p.value = k, "overridden"
				resp.Header(RandCase(g, k), "overridden")
				break
			}
		}
		plans = append(plans, p)
		return resp
	}})
	if !ok {
		return
	}
	r.Eval(fmt.Sprint(c))
	for _, s := range conn.ReadSizes {
		if s != readBuf {
			r.Violate("effect/TCP.ReadBufferSize", c, "the connection is read by %d bytes, configured %d", s, readBuf)
			return
		}
	}
	r.Count("reads", int64(len(conn.ReadSizes)))
	for _, d := range conn.Deadlines {
		// the monitor itself may be slow
		if d > timeout+time.Millisecond || d < timeout-30*time.Second && timeout > 40*time.Second {
			r.Violate("effect/TCP.ReadTimeout", c, "the read deadline is in %v, configured %v", d, timeout)
			return
		}
	}
	if len(conn.Deadlines) < conn.Reads && conn.Reads < 60 {
		r.Violate("effect/TCP.ReadTimeout", c, "%d deadlines set for %d reads", len(conn.Deadlines), conn.Reads)
		return
	}
	r.Count("deadlines", int64(len(conn.Deadlines)))
	rs, err := ParseAll(conn.Out.Bytes(), nil)
	if err != nil || len(rs) != len(plans) || len(plans) != n {
		r.Violate("output", c, "%d responses, %d handled of %d (%v): %s", len(rs), len(plans), n, err, Q(conn.Out.Bytes()))
		return
	}
	for i, p := range plans {
		if !bytes.Equal(rs[i].Body, p.content) {
			r.Violate("effect/body", c, "response %d (%s) has the body %s, expected %s", i, p.kind, Q(rs[i].Body), Q(p.content))
			return
		}
		want := map[string]string{}
		for k, v := range def {
			want[strings.ToLower(k)] = v
		}
		if p.override != "" {
			want[strings.ToLower(p.override)] = p.value
			r.Count("overridden", 1)
		}
		for k, v := range want {
			got := rs[i].Get(k)
			r.Count("default_headers", 1)
			if len(got) != 1 || got[0] != v {
				r.Violate("effect/Headers.Default", c, "response %d (%s): header %s is %q, expected %q", i, p.kind, k, got, v)
				return
			}
		}
		for _, h := range rs[i].Headers {
			switch k := strings.ToLower(h[0]); k {
			case "content-type", "content-length", "transfer-encoding", "set-cookie":
			default:
				if _, ok := want[k]; !ok {
					r.Violate("effect/Headers.Default", c, "response %d (%s) has the header %q, which isn't configured", i, p.kind, h)
					return
				}
			}
		}
		if p.stream != nil {
			r.Count("streams", 1)
			// chunks have a few bytes of framing
			max := fileBuf
			if p.kind == "sized" && len(p.content) < max {
				max = len(p.content)
			}
			if p.stream.max > max || p.stream.max < max-32 {
				r.Violate("effect/HTTP.FileBuffSize", c, "the %s stream of %d bytes is read by up to %d bytes, the buffer has to be %d", p.kind, len(p.content), p.stream.max, fileBuf)
				return
			}
		}
	}
	r.Sample("effects", c)
}

// tuned: the same through an application, whatever the order of its setup.
// secure: the configuration is also the one of HTTPS listeners, whenever it is given before serving.
func secure(r *Run, g *rand.Rand, round int) {
	cert, key, err := Certificate(r.Scratch, "localhost")
	if err != nil {
		r.Inconclusive("%v", err)
		return
	}
	limit, token := 2+g.Intn(40), fmt.Sprint("token-", g.Intn(1e6))
	cfg := config.Config{Headers: config.Headers{Default: map[string]string{"X-Tuned": token}, Number: config.HeadersNumber{Maximal: limit}}}
	addrs := []string{FreeAddr(), FreeAddr(), FreeAddr()}
	app := indigo.New(addrs[0])
	order := round % 4
	switch order {
	case 0:
		app.Tune(cfg).HTTPS(addrs[1], cert, key).AutoHTTPS(addrs[2])
	case 1:
		app.HTTPS(addrs[1], cert, key).Tune(cfg).AutoHTTPS(addrs[2])
	case 2:
		app.HTTPS(addrs[1], cert, key).AutoHTTPS(addrs[2]).Tune(cfg)
	case 3:
		app.Tune(config.Default()).AutoHTTPS(addrs[2]).HTTPS(addrs[1], cert, key).Tune(cfg)
	}
	c := map[string]any{"order": order, "limit": limit}
	r.Step("secure %v", c)
	started, done := make(chan struct{}), make(chan error, 1)
	go func() {
		done <- app.OnStart(func() { close(started) }).Serve(inbuilt.New().Get("/", func(req *http.Request) *http.Response { return req.Respond().String("ok") }))
	}()
	select {
	case <-started:
	case <-done:
		r.Count("not_started", 1) // a port was taken meanwhile
		return
	}
	for i, a := range addrs {
		for _, n := range []int{limit, limit + 1} {
			var conn net.Conn
			if i == 0 {
				conn, err = net.Dial("tcp", a)
			} else {
				conn, err = tls.Dial("tcp", a, &tls.Config{InsecureSkipVerify: true})
			}
			if err != nil {
				r.Inconclusive("%v", err)
				break
			}
			_ = conn.SetDeadline(time.Now().Add(60 * time.Second))
			_, _ = conn.Write([]byte("GET / HTTP/1.0\r\n" + strings.Repeat("A: b\r\n", n) + "\r\n"))
			out, _ := io.ReadAll(conn)
			_ = conn.Close()
			r.Eval(fmt.Sprint("secure", c, i, n, round))
			r.Count("secure", 1)
			want := "HTTP/1.0 200 "
			if n > limit {
				want = "HTTP/1.0 431 "
			}
			if !strings.HasPrefix(string(out), want) || !strings.Contains(string(out), "\r\nX-Tuned: "+token+"\r\n") {
				r.Violate("secure", c, "%d headers with the limit %d through listener %d: %s", n, limit, i, Q(out))
			}
		}
	}
	app.Stop()
	<-done
}

func tuned(r *Run, g *rand.Rand, round int) {
	var cfg config.Config
	cfg.TCP.ReadBufferSize = Pick(g, []int{0, 3, 50, 3000})
	cfg.TCP.ReadTimeout = Pick(g, []time.Duration{0, 1500 * time.Millisecond, time.Hour})
	if Chance(g, 60) {
		cfg.Headers.Default = genHeaders(g)
	}
	cfg.Headers.Number.Maximal = Pick(g, []int{0, 3, 7})
	readBuf, timeout, def, number := cfg.TCP.ReadBufferSize, cfg.TCP.ReadTimeout, cfg.Headers.Default, cfg.Headers.Number.Maximal
	if readBuf == 0 {
		readBuf = 4096
	}
	if timeout == 0 {
		timeout = 90 * time.Second
	}
	if def == nil {
		def = config.DefaultHeaders
	}
	if number == 0 {
		number = 50
	}
	var mu sync.Mutex
	var recs []*recorder
	addr := make(chan net.Addr, 2)
	listener := indigo.Listener{Listen: func(n, a string) (net.Listener, error) {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err == nil {
			addr <- l.Addr()
		}
		return &wrapped{l, func(conn net.Conn) net.Conn {
			rec := &recorder{Conn: conn, sizes: map[int]int{}}
			mu.Lock()
			recs = append(recs, rec)
			mu.Unlock()
			return rec
		}}, err
	}}
	order := g.Intn(3)
	app := indigo.New("127.0.0.1:0")
	switch order {
	case 0:
		app.Tune(cfg).Listen("127.0.0.1:0", listener)
	case 1:
		app.Listen("127.0.0.1:0", listener).Tune(cfg)
	case 2:
		app.Tune(config.Default()).Listen("127.0.0.1:0", listener).Tune(cfg)
	}
	c := map[string]any{"config": fmt.Sprintf("%+v", cfg), "order": order}
	r.Step("tuned %v", c)
	done := make(chan error, 1)
	go func() {
		done <- app.Serve(inbuilt.New().Get("/", func(req *http.Request) *http.Response { return req.Respond().String("ok") }))
	}()
	var a net.Addr
	select {
	case a = <-addr:
	case err := <-done:
		r.Inconclusive("%v", err)
		return
	}
	func() {
		conn, err := net.Dial("tcp", a.String())
		if err != nil {
			r.Inconclusive("%v", err)
			return
		}
		defer conn.Close()
		_ = conn.SetDeadline(time.Now().Add(60 * time.Second))
		for i := 0; i < 2; i++ {
			n := number
			if i == 1 {
				n = number + 1
			}
			req := "GET / HTTP/1.1\r\n" + strings.Repeat("A: b\r\n", n) + "\r\n"
			if _, err := conn.Write([]byte(req)); err != nil {
				r.Inconclusive("%v", err)
				return
			}
			buf := make([]byte, 4<<20)
			k := 0
			for !whole(buf[:k]) {
				m, err := conn.Read(buf[k:])
				k += m
				if err != nil {
					break
				}
			}
			line := string(buf[:k])
			r.Eval(fmt.Sprint("tuned", c, i, round))
			r.Count("tuned", 1)
			if i == 0 && !strings.HasPrefix(line, "HTTP/1.1 200 ") || i == 1 && !strings.HasPrefix(line, "HTTP/1.1 431 ") {
				r.Violate("tuned/Headers.Number.Maximal", c, "%d headers with the limit %d: %s", n, number, Q(line))
				return
			}
			if i == 0 {
				for k, v := range def {
					if !strings.Contains(line, "\r\n"+k+": "+v+"\r\n") {
						r.Violate("tuned/Headers.Default", c, "the default header %s: %s is missing in %s", k, v, Q(line))
						return
					}
				}
			}
		}
	}()
	mu.Lock()
	defer mu.Unlock()
	for _, rec := range recs {
		rec.mu.Lock()
		for s := range rec.sizes {
			if s != readBuf {
				r.Violate("tuned/TCP.ReadBufferSize", c, "the connection is read by %d bytes, configured %d", s, readBuf)
			}
		}
		for _, d := range rec.deadlines {
			if d > timeout+time.Millisecond || d < timeout-30*time.Second && timeout > 40*time.Second {
				r.Violate("tuned/TCP.ReadTimeout", c, "the deadline is in %v, configured %v", d, timeout)
			}
		}
		if rec.reads > 0 && rec.unguarded > 0 {
			r.Violate("tuned/TCP.ReadTimeout", c, "%d reads without a new deadline", rec.unguarded)
		}
		r.Count("tuned_reads", int64(rec.reads))
		rec.mu.Unlock()
	}
	app.Stop()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		r.Inconclusive("the application doesn't stop")
	}
}

type wrapped struct {
	net.Listener
	wrap func(net.Conn) net.Conn
}

func (w *wrapped) Accept() (net.Conn, error) {
	c, err := w.Listener.Accept()
	if err != nil {
		return nil, err
	}
	return w.wrap(c), nil
}

func (w *wrapped) SetDeadline(t time.Time) error {
	if l, ok := w.Listener.(*net.TCPListener); ok {
		return l.SetDeadline(t)
	}
	return errors.New("unsupported")
}

// silent: a client that says nothing is disconnected after the configured time (and not before).
func silent(r *Run, g *rand.Rand, timeout time.Duration) {
	var cfg config.Config
	cfg.TCP.ReadTimeout = timeout
	addr := make(chan net.Addr, 1)
	app := indigo.New("127.0.0.1:0").Tune(cfg).Listen("127.0.0.1:0", indigo.Listener{Listen: func(n, a string) (net.Listener, error) {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err == nil {
			addr <- l.Addr()
		}
		return l, err
	}})
	done := make(chan error, 1)
	go func() {
		done <- app.Serve(inbuilt.New().Get("/", func(req *http.Request) *http.Response { return req.Respond().String("ok") }))
	}()
	var a net.Addr
	select {
	case a = <-addr:
	case err := <-done:
		r.Inconclusive("%v", err)
		return
	}
	c := map[string]any{"timeout": timeout.String()}
	r.Step("silent %v", c)
	conn, err := net.Dial("tcp", a.String())
	if err != nil {
		r.Inconclusive("%v", err)
		return
	}
	_, _ = conn.Write([]byte(Pick(g, []string{"", "GET / HT", "GET / HTTP/1.1\r\n\r\n"})))
	begin := time.Now()
	_ = conn.SetReadDeadline(begin.Add(timeout + 90*time.Second))
	_, err = io.Copy(io.Discard, conn)
	took := time.Since(begin)
	_ = conn.Close()
	r.Eval(fmt.Sprint("silent", timeout))
	r.Count("silent", 1)
	var ne net.Error
	if errors.As(err, &ne) && ne.Timeout() {
		r.Violate("timeout/none", c, "a silent client isn't disconnected after %v", took)
	} else if took < timeout*9/10-20*time.Millisecond {
		r.Violate("timeout/early", c, "a silent client is disconnected after %v already", took)
	}
	app.Stop()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		r.Inconclusive("the application doesn't stop")
	}
}

// whole tells whether there's a response with a complete body.
func whole(b []byte) bool {
	_, _, err := ParseResponse(b, false)
	return err == nil
}

func main() {
	Main("C25", "partial configurations (each leaf alone, all but one, random subsets); random configurations x requests x responses on instrumented connections", func(r *Run) {
		log.SetOutput(io.Discard)
		defaults(r)
		g := r.Rng("fill")
		for i := 0; i < r.N(20000, 300000); i++ {
			fill(r, g, i)
		}
		g = r.Rng("effects")
		for i := 0; i < r.N(12000, 150000); i++ {
			effects(r, g)
		}
		g = r.Rng("tuned")
		for i := 0; i < r.N(60, 400); i++ {
			tuned(r, g, i)
			secure(r, g, i)
		}
		for _, t := range []time.Duration{100 * time.Millisecond, 400 * time.Millisecond, time.Second} {
			silent(r, g, t)
		}
		r.Floor("kept", 50000)
		r.Floor("defaulted", 50000)
		r.Floor("reads", 10000)
		r.Floor("deadlines", 10000)
		r.Floor("default_headers", 5000)
		r.Floor("overridden", 1000)
		r.Floor("streams", 2000)
		r.Floor("tuned", 100)
		r.Floor("tuned_reads", 100)
		r.Floor("silent", 3)
		r.Floor("secure", 100)
	})
}
