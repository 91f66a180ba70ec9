//go:build go1.22

// Monitor of C21: every byte of a connection is tagged by its position; what a hijacking handler receives is compared
// with what the client sent behind the request, and the event log shows what the server does on its own afterwards.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"strings"
	"time"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/method"
	"github.com/indigo-web/indigo/http/status"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
	. "github.com/indigo-web/indigo/internal/zzverif/vsrv"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/inbuilt/middleware"
)

type state struct {
	conn     *Conn
	mode     string // how the body is read before
	echo     bool   // write what was read
	take     int    // how many bytes to read; -1: until the end
	unread   bool   // give some back in between
	outcome  string
	requests int
	got      []byte
	bodyGot  []byte
	wrote    []byte
	err      error
	readErr  error
	was      bool
	outAt    int // output before the hijack
	events   int
	hijacks  int
}

func (s *state) hijack(req *http.Request) *http.Response {
	s.requests++
	s.bodyGot, _ = ReadBody(req, s.mode)
	s.outAt = s.conn.Out.Len()
	client, err := req.Hijack()
	s.hijacks++
	if err != nil {
		s.err = err
		s.was = req.WasHijacked()
		return req.Respond().String("hijack refused")
	}
	s.was = req.WasHijacked()
	for nth := 0; s.take < 0 || len(s.got) < s.take; nth++ {
		data, err := client.Read()
		if err != nil {
			s.readErr = err
			break
		}
		if s.unread && nth%2 == 0 && len(data) > 1 {
			// look at a part, give the rest back
			s.got = append(s.got, data[:len(data)/2]...)
			client.Unread(data[len(data)/2:])
			continue
		}
		s.got = append(s.got, data...)
		if s.echo {
			back := []byte(fmt.Sprintf("<%d>", len(data)))
			s.wrote = append(s.wrote, back...)
			if err := client.Write(back); err != nil {
				s.err = err
			}
		}
	}
	s.events = len(s.conn.Events)
	switch s.outcome {
	case "nil":
		return nil
	case "text":
		return req.Respond().String("must never be seen")
	case "error":
		return http.Error(req, status.ErrForbidden)
	case "stream":
		return req.Respond().Attachment(strings.NewReader("must never be seen"), -1)
	case "panic":
		panic("handler gives up")
	}
	return req.Respond()
}

func plain(s *state) func(req *http.Request) *http.Response {
	return func(req *http.Request) *http.Response {
		s.requests++
		return req.Respond().String(strings.Clone(req.Path))
	}
}

func makeRouter(s *state, kind string) router.Router {
	switch kind {
	case "inbuilt", "middlewares":
		r := inbuilt.New()
		if kind == "middlewares" || s.outcome == "panic" {
			r.Use(middleware.ServerHeader(), middleware.Recover)
		}
		r.Get("/plain", plain(s)).Post("/plain", plain(s)).
			Get("/ws/{id}", s.hijack).Post("/ws/{id}", s.hijack).Put("/ws/{id}", s.hijack)
		return r.Initialize()
	case "errors":
		// the handler of not found pages hijacks
		r := inbuilt.New().Get("/plain", plain(s)).Post("/plain", plain(s)).RouteError(s.hijack, status.NotFound)
		if s.outcome == "panic" {
			s.outcome = "nil"
		}
		return r.Initialize()
	}
	return Router{Req: func(req *http.Request) (resp *http.Response) {
		if req.Path == "/plain" {
			return plain(s)(req)
		}
		defer func() {
			if s.outcome == "panic" {
				_ = recover()
			}
		}()
		return s.hijack(req)
	}}
}

func tail(g *rand.Rand) []byte {
	n := g.Intn(Pick(g, []int{1, 2, 10, 100, 3000, 20000}))
	switch g.Intn(4) {
	case 0:
		return Bytes(g, n)
	case 1:
		return bytes.Repeat([]byte("GET /plain HTTP/1.1\r\n\r\n"), n/20+1)
	case 2:
		return bytes.Repeat([]byte("\r\n0\r\n\r\n"), n/6)
	}
	var b []byte
	for i := 0; len(b) < n; i++ {
		b = fmt.Appendf(b, "[%d]", i)
	}
	return b
}

func one(r *Run, g *rand.Rand) {
	var stream []byte
	before := g.Intn(3)
	gen := Gen{Methods: []string{"GET", "POST"}, Path: "/plain", KeepAlive: true, Chunked: 50, Protos: []string{"HTTP/1.1", "HTTP/1.0"}}
	for i := 0; i < before; i++ {
		stream = append(stream, gen.Next(g).Wire...)
	}
	hg := Gen{Methods: []string{"GET", "POST", "PUT"}, Path: "/ws/1", Chunked: 50, Protos: []string{"HTTP/1.1", "HTTP/1.1", "HTTP/1.0"}, BodyMax: 6000}
	gen.Large, hg.Large = g.Intn(100) == 0, g.Intn(100) == 0
	if Chance(g, 50) {
		hg.Extra = [][2]string{{"Upgrade", Pick(g, []string{"websocket", "whatever", "h2c", "HTTP/1.1", "HTTP/1.0"})}, {"Connection", "upgrade"}}
	}
	q := hg.Next(g)
	mark := len(stream)
	stream = append(stream, q.Wire...)
	end := len(stream)
	t := tail(g)
	stream = append(stream, t...)

	s := &state{
		mode: Pick(g, []string{"none", "none", "bytes", "partial1", "partial5", "partial100", "one-piece", "read7", "callback"}),
		echo: Chance(g, 50), take: -1, unread: Chance(g, 25),
		outcome: Pick(g, []string{"nil", "empty", "text", "error", "stream", "panic"}),
	}
	if Chance(g, 30) {
		s.take = g.Intn(len(t) + 1)
	}
	conn := &Conn{In: stream, LogEvents: true, WithEnd: Chance(g, 20)}
	switch g.Intn(5) {
	case 0:
		conn.Cuts = RandomCuts(g, len(stream))
	case 1:
		conn.Cuts = []int{end}
	case 2:
		conn.Cuts = []int{mark, q.HeadLen, end - mark - q.HeadLen}
	case 3:
		if len(t) > 0 {
			conn.Cuts = []int{mark, end - mark + g.Intn(len(t)+1)}
		}
	}
	for i := 0; i < len(conn.Cuts); i++ {
		if conn.Cuts[i] == 0 {
			conn.Cuts = append(conn.Cuts[:i], conn.Cuts[i+1:]...)
			i--
		}
	}
	cuts := append([]int(nil), conn.Cuts...)
	s.conn = conn
	cfg := config.Default()
	cfg.TCP.ReadBufferSize = Pick(g, []int{1, 7, 64, 500, 4096, 4096, 65536})
	kind := Pick(g, []string{"simple", "inbuilt", "middlewares", "errors"})
	c := map[string]any{"stream": Q(stream), "cuts": cuts, "router": kind, "body": s.mode, "outcome": s.outcome,
		"take": s.take, "tail": Q(t), "readBuffer": cfg.TCP.ReadBufferSize, "unread": s.unread}
	r.Step("%v", c)
	if !Serve(r, "hijack", c, cfg, conn, makeRouter(s, kind)) {
		return
	}
	r.Eval(fmt.Sprint(c))
	r.Sample(kind+s.mode, c)
	if s.hijacks != 1 {
		r.Violate("not-reached", c, "the hijacking handler ran %d times", s.hijacks)
		return
	}
	if s.err != nil {
		r.Violate("hijack-error", c, "hijacking a complete request fails: %v", s.err)
		return
	}
	if !s.was {
		r.Violate("was-hijacked", c, "WasHijacked is false after the hijack")
	}
	if s.requests != before+1 {
		r.Violate("processed-as-http", c, "%d requests handled, expected %d", s.requests, before+1)
		return
	}
	if s.take < 0 {
		if !bytes.Equal(s.got, t) {
			r.Violate("bytes", c, "received %s, the client sent %s", Q(s.got), Q(t))
			return
		}
		if !errors.Is(s.readErr, io.EOF) {
			r.Violate("end", c, "the connection ended by %v, the handler sees %v", io.EOF, s.readErr)
		}
		r.Count("complete", 1)
	} else if !bytes.HasPrefix(t, s.got) || len(s.got) < s.take {
		r.Violate("bytes", c, "received %s, the client sent %s", Q(s.got), Q(t))
		return
	}
	if len(s.got) > 0 {
		r.Count("bytes_received", int64(len(s.got)))
	}
	if len(conn.Events) != s.events {
		r.Violate("intrusion", c, "the server itself does %v after the handler returned", conn.Events[s.events:])
		return
	}
	out := conn.Out.Bytes()
	if !bytes.Equal(out[s.outAt:], s.wrote) {
		r.Violate("intrusion/output", c, "output after the hijack: %s, the handler wrote %s", Q(out[s.outAt:]), Q(s.wrote))
		return
	}
	rs, err := ParseAll(out[:s.outAt], nil)
	final := 0
	for _, resp := range rs {
		if resp.Code >= 200 {
			final++
		}
	}
	if err != nil || final != before {
		r.Violate("output-before", c, "%d responses (%v) before the hijack, expected %d: %s", final, err, before, Q(out[:s.outAt]))
	}
	if conn.Closes > 0 {
		r.Violate("closed", c, "the connection was closed by the server loop")
	}
	if len(q.Body) > 0 && len(s.bodyGot) < len(q.Body) {
		r.Count("unread_bodies", 1)
	}
	if len(t) > 0 && (len(cuts) == 0) {
		r.Count("tail_with_request", 1)
	}
}

// broken: the body of the hijacking request cannot be read to its end: the hijack fails, and the connection ends.
func broken(r *Run, g *rand.Rand) {
	q := Gen{Methods: []string{"POST"}, Path: "/ws/1", Chunked: 50, BodyMax: 200}.Next(g)
	for len(q.Body) < 3 {
		q = Gen{Methods: []string{"POST"}, Path: "/ws/1", Chunked: 50, BodyMax: 200}.Next(g)
	}
	cut := q.HeadLen + g.Intn(len(q.Wire)-q.HeadLen-1)
	if q.Chunked {
		cut = q.HeadLen + g.Intn(len(q.Wire)-q.HeadLen-4)
	}
	s := &state{mode: "none", take: -1, outcome: "text", conn: &Conn{In: q.Wire[:cut], LogEvents: true}}
	if Chance(g, 50) {
		s.conn.Cuts = RandomCuts(g, cut)
	}
	c := map[string]any{"stream": Q(q.Wire[:cut])}
	r.Step("broken %v", c)
	if !Serve(r, "hijack", c, config.Default(), s.conn, makeRouter(s, "simple")) {
		return
	}
	r.Eval("broken" + string(q.Wire[:cut]))
	r.Count("broken_bodies", 1)
	if s.err == nil {
		r.Violate("truncated", c, "hijacking succeeds although the body is truncated")
		return
	}
	// the connection is not hijacked, so the handler's response is sent
	if s.was {
		r.Violate("failed-hijack", c, "the hijack failed (%v), but the request tells that it was hijacked", s.err)
	}
	if rs, err := ParseAll(s.conn.Out.Bytes(), []string{"POST"}); err != nil || len(rs) != 1 || rs[0].Code != 200 || string(rs[0].Body) != "hijack refused" {
		r.Violate("failed-hijack", c, "the hijack failed (%v), the response of the handler isn't sent: %s %v", s.err, Q(s.conn.Out.Bytes()), err)
	}
}

// live: through the whole application over TCP; a conversation, then the connection ends when the handler returns.
func live(r *Run, g *rand.Rand) {
	probe, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r.Inconclusive("%v", err)
		return
	}
	addr := probe.Addr().String()
	_ = probe.Close()
	type outcome struct {
		got []byte
		err error
	}
	results := make(chan outcome, 64)
	router := inbuilt.New()
	router.Route(method.POST, "/ws", func(req *http.Request) *http.Response {
		client, err := req.Hijack()
		if err != nil {
			results <- outcome{nil, err}
			return nil
		}
		var got []byte
		for {
			b, err := client.Read()
			got = append(got, b...)
			if err != nil {
				results <- outcome{got, err}
				return nil
			}
			if bytes.HasSuffix(got, []byte("QUIT\n")) {
				_ = client.Write([]byte("bye"))
				results <- outcome{got, nil}
				return req.Respond().String("must never be seen")
			}
		}
	})
	started := make(chan struct{})
	app := indigo.New(addr).OnStart(func() { close(started) })
	done := make(chan error, 1)
	go func() { done <- app.Serve(router) }()
	select {
	case <-started:
	case err := <-done:
		r.Inconclusive("cannot serve: %v", err)
		return
	}
	for i := 0; i < r.N(60, 400); i++ {
		r.Step("live %d", i)
		q := Gen{Methods: []string{"POST"}, Path: "/ws", Chunked: 50, NoQuery: true}.Next(g)
		t := append(bytes.ReplaceAll(tail(g), []byte("QUIT"), nil), "QUIT\n"...)
		conn, err := net.Dial("tcp", addr)
		if err != nil {
			r.Inconclusive("%v", err)
			continue
		}
		_ = conn.SetDeadline(time.Now().Add(60 * time.Second))
		stream := append(append([]byte(nil), q.Wire...), t...)
		c := map[string]any{"request": Q(q.Wire), "tail": Q(t)}
		pg := rand.New(rand.NewSource(g.Int63()))
		go func() {
			for left := stream; len(left) > 0; {
				n := 1 + pg.Intn(len(left))
				if _, err := conn.Write(left[:n]); err != nil {
					return
				}
				left = left[n:]
			}
		}()
		var o outcome
		select {
		case o = <-results:
		case <-time.After(60 * time.Second):
			r.Violate("live/lost", c, "the hijacking handler doesn't receive the end of the data")
			_ = conn.Close()
			break
		}
		answer, err := io.ReadAll(conn)
		_ = conn.Close()
		r.Eval("live" + string(stream))
		r.Count("live", 1)
		if o.err != nil || !bytes.Equal(o.got, t) {
			r.Violate("live/bytes", c, "received %s (%v), the client sent %s", Q(o.got), o.err, Q(t))
			continue
		}
		if string(answer) != "bye" || err != nil {
			r.Violate("live/output", c, "the client received %s (%v)", Q(answer), err)
		}
	}
	app.Stop()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		r.Inconclusive("the application doesn't stop")
	}
}

func main() {
	Main("C21", "random requests, bodies, ways of reading them, tails, deliveries and routers with a hijacking handler; live conversations over TCP", func(r *Run) {
		log.SetOutput(io.Discard)
		g := r.Rng("product")
		for i := 0; i < r.N(30000, 600000); i++ {
			one(r, g)
		}
		for i := 0; i < r.N(1500, 20000); i++ {
			broken(r, g)
		}
		live(r, g)
		r.Floor("complete", 5000)
		r.Floor("unread_bodies", 2000)
		r.Floor("tail_with_request", 1000)
		r.Floor("broken_bodies", 500)
		r.Floor("live", 50)
	})
}
