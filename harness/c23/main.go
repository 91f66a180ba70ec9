//go:build go1.22

// Monitor of C23: histories of a connection client over an instrumented connection, against a model.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"syscall"
	"time"

	"github.com/indigo-web/indigo/internal/tcp"
	"github.com/indigo-web/indigo/internal/tcp/dummy"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
)

type chunk struct {
	data []byte
	err  error
}

// errTransient is an error after which the connection can still be used, like an expired deadline
var errTransient = fmt.Errorf("transient: %w", os.ErrDeadlineExceeded)

type fakeConn struct {
	script    []chunk
	final     error
	taken     int // bytes handed out
	reads     int
	badBuf    string
	deadlines []time.Time
	armed     bool // a deadline was set since the last read
	dlErr     error
	unarmed   bool
	written   []byte
	writeErr  error
	writeOnce bool
	writeN    int
	closes    int
	closeErr  error
	remote    net.Addr
	bufSize   int
	writeDl   time.Time
}

func (c *fakeConn) Read(b []byte) (int, error) {
	c.reads++
	if !c.armed {
		c.unarmed = true
	}
	c.armed = false
	if len(b) == 0 {
		c.badBuf = "an empty buffer was given to the connection's Read"
		return 0, nil
	}
	if len(b) > c.bufSize {
		c.badBuf = fmt.Sprintf("a buffer of %d bytes was given, %d configured", len(b), c.bufSize)
	}
	for i := range b {
		b[i] = 0xDD // whatever is there may be overwritten by a read
	}
	if len(c.script) == 0 {
		return 0, c.final
	}
	ch := &c.script[0]
	n := copy(b, ch.data)
	c.taken += n
	ch.data = ch.data[n:]
	if len(ch.data) > 0 {
		return n, nil
	}
	err := ch.err
	c.script = c.script[1:]
	if err != nil && !errors.Is(err, errTransient) {
		c.script, c.final = nil, err
	}
	return n, err
}

func (c *fakeConn) Write(b []byte) (int, error) {
	if !c.writeDl.IsZero() && !time.Now().Before(c.writeDl) {
		return 0, fmt.Errorf("writing: %w", os.ErrDeadlineExceeded)
	}
	if c.writeErr != nil {
		n := min(c.writeN, len(b))
		c.written = append(c.written, b[:n]...)
		err := c.writeErr
		if c.writeOnce {
			c.writeErr = nil
		}
		return n, err
	}
	c.written = append(c.written, b...)
	return len(b), nil
}
func (c *fakeConn) Close() error         { c.closes++; return c.closeErr }
func (c *fakeConn) LocalAddr() net.Addr  { return &net.TCPAddr{IP: net.IPv4(9, 9, 9, 9), Port: 9} }
func (c *fakeConn) RemoteAddr() net.Addr { return c.remote }
func (c *fakeConn) arm(t time.Time) error {
	if c.dlErr != nil {
		return c.dlErr
	}
	c.armed = true
	c.deadlines = append(c.deadlines, t)
	return nil
}
func (c *fakeConn) SetDeadline(t time.Time) error      { c.writeDl = t; return c.arm(t) }
func (c *fakeConn) SetReadDeadline(t time.Time) error  { return c.arm(t) }
func (c *fakeConn) SetWriteDeadline(t time.Time) error { c.writeDl = t; return nil }

type step struct {
	Op string
	N  int
}

type hist struct {
	Buf     int
	Timeout string
	Chunks  []string
	Final   string
	Steps   []step
}

func history(r *Run, g *rand.Rand) {
	long := g.Intn(400) == 0
	h := hist{Buf: Pick(g, []int{1, 2, 3, 7, 16, 64, 512})}
	if long {
		h.Buf = Pick(g, []int{512, 2048, 4096, 4097, 8192, 32768, 65536, 65537, 200000})
	}
	timeout := Pick(g, []time.Duration{0, time.Millisecond, time.Second, 90 * time.Second, 24 * time.Hour, 1234567 * time.Microsecond})
	h.Timeout = timeout.String()
	final := Pick(g, []error{io.EOF, os.ErrDeadlineExceeded, syscall.ECONNRESET, errors.New("odd")})
	h.Final = final.Error()
	conn := &fakeConn{final: final, bufSize: h.Buf, remote: &net.TCPAddr{IP: net.IPv4(10, 1, 2, byte(g.Intn(256))), Port: g.Intn(65536)}}
	var stream []byte
	next := byte(1)
	chunks := g.Intn(8)
	if long {
		chunks = Pick(g, []int{1, 4, 150, 600})
	}
	for i := 0; i < chunks; i++ {
		n := g.Intn(Pick(g, []int{1, 4, 30, 200}))
		if long && chunks < 10 {
			n = g.Intn(2*h.Buf + 10)
		}
		d := make([]byte, n)
		for k := range d {
			d[k] = next
			if next++; next == 0xDD {
				next = 1
			}
		}
		if Chance(g, 10) {
			conn.script = append(conn.script, chunk{err: errTransient})
			h.Chunks = append(h.Chunks, "transient error")
		}
		stream = append(stream, d...)
		c := chunk{data: d}
		if i == chunks-1 && Chance(g, 60) {
			c.err = final
		}
		conn.script = append(conn.script, c)
		h.Chunks = append(h.Chunks, fmt.Sprintf("%d bytes, %v", n, c.err))
	}
	cl := tcp.NewClient(conn, timeout, make([]byte, h.Buf, h.Buf+g.Intn(3)*7))
	var (
		pos                int    // position in the stream of what was read from the connection
		pending            []byte // model
		last               []byte // what the previous Read returned, and its copy
		lastCp             []byte
		ended              bool
		foreign, foreignCp [][]byte
	)
	fail := func(kind, format string, args ...any) {
		r.Violate(kind, h, "%s", fmt.Sprintf(format, args...))
	}
	steps := 1 + g.Intn(40)
	if long {
		steps = chunks*2 + g.Intn(1000)
		r.Count("long_histories", 1)
	}
	for i := 0; i < steps; i++ {
		switch op := g.Intn(20); {
		case op < 11 || i == steps-1: // read
			h.Steps = append(h.Steps, step{Op: "read"})
			before := time.Now()
			nd := len(conn.deadlines)
			reads := conn.reads
			if len(pending) == 0 && Chance(g, 3) {
				conn.dlErr = errors.New("cannot set a deadline")
			}
			var data []byte
			var err error
			if !r.Guard("read", h, func() { data, err = cl.Read() }) {
				return
			}
			after := time.Now()
			r.Count("reads", 1)
			if conn.badBuf != "" {
				fail("buffer", "%s", conn.badBuf)
				return
			}
			if conn.dlErr != nil {
				if err == nil || len(data) > 0 || conn.reads != reads {
					fail("deadline-error-ignored", "the deadline could not be set, Read returned %d bytes, %v, %d reads", len(data), err, conn.reads-reads)
					return
				}
				conn.dlErr = nil
				r.Count("deadline_errors", 1)
				continue
			}
			if conn.unarmed {
				fail("no-deadline", "the connection was read without a deadline being set before")
				return
			}
			for _, t := range conn.deadlines[nd:] {
				if t.Before(before.Add(timeout)) || t.After(after.Add(timeout)) {
					fail("wrong-deadline", "the deadline is %v from the call, timeout is %v", t.Sub(before), timeout)
					return
				}
				r.Count("deadlines", 1)
			}
			if len(pending) > 0 {
				if err != nil || !bytes.Equal(data, pending) {
					fail("unread-lost", "Read after Unread(%s) = %s, %v", Q(pending), Q(data), err)
					return
				}
				pending = nil
				r.Count("unread_back", 1)
			} else {
				if err != nil && len(data) > 0 {
					fail("data-with-error", "Read = %d bytes together with %v", len(data), err)
					return
				}
				if pos+len(data) > len(stream) || !bytes.Equal(data, stream[pos:pos+len(data)]) {
					fail("wrong-bytes", "Read = %s at position %d of %s", Q(data), pos, Q(stream))
					return
				}
				pos += len(data)
				if pos != conn.taken {
					fail("lost-bytes", "%d bytes taken from the connection, %d returned", conn.taken, pos)
					return
				}
				if err == errTransient {
					if ended || conn.reads == reads {
						fail("wrong-error", "error %v which the connection did not give", err)
						return
					}
					r.Count("transient_errors", 1)
				} else if err != nil {
					if err != final {
						fail("wrong-error", "error %v, want %v", err, final)
						return
					}
					if pos != len(stream) {
						fail("early-error", "error %v at %d of %d bytes", err, pos, len(stream))
						return
					}
					ended = true
					r.Count("ends", 1)
				} else if ended {
					fail("error-forgotten", "Read after the end succeeded with %s", Q(data))
					return
				}
			}
			last = data
			lastCp = append([]byte(nil), data...)
		case op < 15: // unread a suffix of what was read
			if !bytes.Equal(last, lastCp) {
				fail("data-changed", "data returned by Read changed without another read: %s, was %s", Q(last), Q(lastCp))
				return
			}
			if len(last) == 0 {
				continue
			}
			if Chance(g, 20) {
				// something else is given back
				b := Bytes(g, 1+g.Intn(2*h.Buf+2))
				h.Steps = append(h.Steps, step{"unread-other", len(b)})
				if !r.Guard("unread", h, func() { cl.Unread(b) }) {
					return
				}
				for k := range foreign {
					if !bytes.Equal(foreign[k], foreignCp[k]) {
						fail("unread-modifies", "Unread changed the memory of what had been given back before")
						return
					}
				}
				pending = append([]byte(nil), b...)
				foreign, foreignCp = append(foreign, b), append(foreignCp, pending)
				last, lastCp = b, pending
				r.Count("unread_other", 1)
				continue
			}
			k := g.Intn(len(last) + 1)
			h.Steps = append(h.Steps, step{"unread", len(last) - k})
			b := last[k:]
			if !r.Guard("unread", h, func() { cl.Unread(b) }) {
				return
			}
			pending = append([]byte(nil), b...)
			last, lastCp = b, pending
		case op < 17: // write
			d := Bytes(g, g.Intn(Pick(g, []int{2, 50, 3000, 3000, map[bool]int{true: 150000, false: 3000}[long]})))
			h.Steps = append(h.Steps, step{"write", len(d)})
			conn.writeErr, conn.written = nil, nil
			if Chance(g, 30) {
				conn.writeErr = Pick(g, []error{syscall.EPIPE, io.ErrClosedPipe, errors.New("odd write"), os.ErrDeadlineExceeded, syscall.EAGAIN, syscall.EINTR, &net.OpError{Op: "write", Net: "tcp", Err: os.ErrDeadlineExceeded}, io.ErrShortWrite, io.EOF, net.ErrClosed})
				conn.writeN = g.Intn(len(d) + 1)
				conn.writeOnce = Chance(g, 50)
			}
			cp := append([]byte(nil), d...)
			wantErr := conn.writeErr
			var err error
			if !r.Guard("write", h, func() { err = cl.Write(d) }) {
				return
			}
			r.Count("writes", 1)
			if !bytes.Equal(cp, d) {
				fail("write-modifies", "Write modified its argument")
			}
			if wantErr != nil {
				if len(d) > 0 && !errors.Is(err, wantErr) {
					fail("write-error-lost", "the connection failed with %v, Write returned %v", wantErr, err)
					return
				}
				r.Count("write_errors", 1)
			} else if err != nil || !bytes.Equal(conn.written, d) {
				fail("write", "Write(%s) = %v, the connection got %s", Q(d), err, Q(conn.written))
				return
			}
		case op == 17:
			if a := cl.Remote(); a != conn.remote {
				fail("remote", "Remote() = %v, want %v", a, conn.remote)
				return
			}
		case op == 18:
			if c := cl.Conn(); c != net.Conn(conn) {
				fail("conn", "Conn() is another connection")
				return
			}
		}
	}
	if len(last) > 0 && len(pending) == 0 && Chance(g, 40) {
		pending = append([]byte(nil), last...)
		cl.Unread(last)
	}
	conn.closeErr = Pick(g, []error{nil, nil, errors.New("close failed")})
	if err := cl.Close(); err != conn.closeErr || conn.closes != 1 {
		fail("close", "Close() = %v, want %v; the connection was closed %d times", err, conn.closeErr, conn.closes)
	}
	if Chance(g, 30) {
		// closing once more is up to the connection, too
		conn.closeErr = Pick(g, []error{nil, net.ErrClosed, errors.New("closed again")})
		if err := cl.Close(); err != conn.closeErr {
			fail("close", "the second Close() = %v, want %v", err, conn.closeErr)
		}
	}
	if len(pending) > 0 {
		if data, err := cl.Read(); err != nil || !bytes.Equal(data, pending) {
			fail("unread-lost", "Read after Unread(%s) and Close = %s, %v", Q(pending), Q(data), err)
		}
		r.Count("unread_closed", 1)
	}
	key := ""
	if len(stream) > 0 && len(h.Steps) > 2 {
		key = fmt.Sprint(h)
	}
	r.Eval(key)
	r.Sample("history", h)
}

// circular checks the replaying client used in place of connections.
func circular(r *Run, g *rand.Rand) {
	n := 1 + g.Intn(5)
	var data [][]byte
	for i := 0; i < n; i++ {
		data = append(data, []byte(fmt.Sprintf("piece-%d-%s", i, Word(g, Alnum, 0, 10))))
	}
	c := dummy.NewCircularClient(data...)
	idx := 0
	var pending []byte
	for i := 0; i < 30; i++ {
		got, err := c.Read()
		want := pending
		if len(pending) == 0 {
			want = data[idx%n]
			idx++
		}
		pending = nil
		if err != nil || !bytes.Equal(got, want) {
			r.Violate("circular", data, "read %d of a circular client = %s, %v; want %s", i, Q(got), err, Q(want))
			return
		}
		if Chance(g, 30) {
			pending = got[g.Intn(len(got)):]
			c.Unread(pending)
		}
		r.Count("circular_reads", 1)
	}
	if err := c.Close(); err != nil {
		r.Violate("circular-close", data, "Close: %v", err)
	}
	if got, err := c.Read(); err != io.EOF || len(got) != 0 {
		r.Violate("circular-closed", data, "read of a closed client = %s, %v", Q(got), err)
	}
	o := dummy.NewCircularClient(data...).OneTime()
	if got, err := o.Read(); err != nil || !bytes.Equal(got, data[0]) {
		r.Violate("circular-onetime", data, "first read of a one-time client = %s, %v", Q(got), err)
	}
	if got, err := o.Read(); err != io.EOF || len(got) != 0 {
		r.Violate("circular-onetime", data, "second read of a one-time client = %s, %v", Q(got), err)
	}
	w := dummy.NewSinkholeWriter()
	var all []byte
	for i := 0; i < 4; i++ {
		b := Bytes(g, g.Intn(20))
		all = append(all, b...)
		if err := w.Write(b); err != nil || !bytes.Equal(w.Data, all) {
			r.Violate("sinkhole", nil, "the sinkhole writer lost data")
		}
		for k := range b {
			b[k] = 0 // the writer must have copied it
		}
	}
	if !bytes.Equal(w.Data, all) {
		r.Violate("sinkhole", nil, "the sinkhole writer keeps references to the caller's memory")
	}
	r.Eval(fmt.Sprint("circular", data))
}

// sockets: the same over a real connection pair, with real deadlines.
func sockets(r *Run, g *rand.Rand) {
	l, err := net.Listen("tcp4", "127.0.0.1:0")
	if err != nil {
		r.Inconclusive("no loopback: %v", err)
		return
	}
	defer l.Close()
	peer, err := net.Dial("tcp4", l.Addr().String())
	if err != nil {
		r.Inconclusive("no loopback: %v", err)
		return
	}
	defer peer.Close()
	conn, err := l.Accept()
	if err != nil {
		r.Inconclusive("no loopback: %v", err)
		return
	}
	cl := tcp.NewClient(conn, time.Minute, make([]byte, 1+g.Intn(100)))
	want := Bytes(g, 1+g.Intn(3000))
	go func() {
		_, _ = peer.Write(want[:len(want)/2])
		_, _ = peer.Write(want[len(want)/2:])
		_ = peer.(*net.TCPConn).CloseWrite()
	}()
	var got []byte
	for {
		b, err := cl.Read()
		if len(b) > 1 && Chance(g, 30) {
			cl.Unread(b[1:])
			b = b[:1]
		}
		got = append(got, b...)
		if err != nil {
			if err != io.EOF {
				r.Violate("socket-error", nil, "error %v, want EOF", err)
			}
			break
		}
	}
	if !bytes.Equal(got, want) {
		r.Violate("socket-bytes", nil, "%d bytes sent, %d received", len(want), len(got))
	}
	if cl.Remote().String() != peer.LocalAddr().String() {
		r.Violate("socket-remote", nil, "Remote() = %v, want %v", cl.Remote(), peer.LocalAddr())
	}
	_ = cl.Close()
	r.Eval(fmt.Sprint("socket", len(want)))
	// a silent peer: the read ends by itself
	c1, c2 := net.Pipe()
	defer c2.Close()
	short := tcp.NewClient(c1, 5*time.Millisecond, make([]byte, 8))
	done := make(chan error, 1)
	go func() { _, err := short.Read(); done <- err }()
	select {
	case err := <-done:
		if ne, ok := err.(net.Error); !ok || !ne.Timeout() {
			r.Violate("socket-timeout", nil, "read of a silent peer: %v", err)
		}
		r.Count("timeouts", 1)
	case <-time.After(60 * time.Second):
		r.Violate("socket-timeout", nil, "the read of a silent peer does not end")
	}
	// the expired deadline is one of reading only: answering is still possible
	got2 := make(chan []byte, 1)
	go func() {
		b := make([]byte, 5)
		n, _ := io.ReadFull(c2, b)
		got2 <- b[:n]
	}()
	if err := short.Write([]byte("sorry")); err != nil {
		r.Violate("socket-write-after-timeout", nil, "writing after a read had timed out: %v", err)
		_ = c1.Close()
	}
	if b := <-got2; string(b) != "sorry" {
		r.Violate("socket-write-after-timeout", nil, "the peer got %q", b)
	}
	_ = c1.Close()
}

func main() {
	Main("C23", "random histories of read, unread, write, remote, close over scripted connections (chunk sizes, data with errors, failing deadlines and writes, buffer sizes 1..512, timeouts 0..24h), loopback sockets; non-trivial: data and more than two steps", func(r *Run) {
		g := r.Rng("histories")
		for i := 0; i < r.N(30000, 600000) && !r.Failed(); i++ {
			history(r, g)
		}
		g = r.Rng("circular")
		for i := 0; i < r.N(500, 5000); i++ {
			circular(r, g)
		}
		g = r.Rng("sockets")
		for i := 0; i < r.N(20, 200); i++ {
			sockets(r, g)
		}
		r.Floor("deadlines", 10000)
		r.Floor("unread_back", 10000)
		r.Floor("ends", 1000)
		r.Floor("write_errors", 500)
		r.Floor("timeouts", 5)
		r.Floor("unread_closed", 500)
		r.Floor("unread_other", 5000)
		r.Floor("transient_errors", 2000)
	})
}
