//go:build go1.22

// Package vsrv runs the real HTTP server over scripted in-memory connections and records everything
// observable: the reads and writes of the connection, what handlers saw, what a strict client decodes.
package vsrv

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"time"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/serve"
	"github.com/indigo-web/indigo/internal/zzverif/vlib"
	"github.com/indigo-web/indigo/router"
)

// maxIdleReads is how often an ended connection may be read before this counts as a busy loop.
const maxIdleReads = 50

// ErrInjected is the injected failure of writes.
var ErrInjected = errors.New("injected connection failure")

// Conn is a scripted connection.
type Conn struct {
	In      []byte
	Cuts    []int // sizes of the successive deliveries; the rest comes in one piece
	One     int   // if positive, every delivery has this size (after the cuts)
	End     error // after the input; io.EOF if nil
	WithEnd bool  // the last piece is delivered together with End

	FailWrite   int // the write with this index (from 1) and all later ones fail; 0: never
	ShortWrite  bool
	OnWrite     func(b []byte)
	OnRead      func()
	MaxOut      int // more output than this is an endless loop
	KeepWrites  bool
	Events      []string
	LogEvents   bool
	Out         bytes.Buffer
	Writes      int
	WriteSizes  []int
	Reads       int
	ReadSizes   []int // buffer sizes given to Read
	IdleReads   int
	Closes      int
	Deadlines   []time.Duration
	AfterFail   int // writes and reads after a failed write
	failed      bool
	pos, nthCut int
	mu          sync.Mutex

	// the time is virtual: whenever something was read or written, a long time passes, so deadlines set before are over
	readBy, writeBy deadline
}

type deadline struct{ set, over bool }

func (d *deadline) at(t time.Time) { *d = deadline{set: !t.IsZero()} }

func (c *Conn) elapse() { c.readBy.over, c.writeBy.over = c.readBy.set, c.writeBy.set }

func (c *Conn) event(s string) {
	if c.LogEvents {
		c.Events = append(c.Events, s)
	}
}

// Pos is how much of the input was delivered.
func (c *Conn) Pos() int { return c.pos }

func (c *Conn) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Reads++
	c.event("read")
	if c.failed {
		c.AfterFail++
	}
	if c.OnRead != nil {
		c.OnRead()
	}
	if len(c.ReadSizes) < 64 {
		c.ReadSizes = append(c.ReadSizes, len(p))
	}
	end := c.End
	if end == nil {
		end = io.EOF
	}
	if c.pos >= len(c.In) {
		c.IdleReads++
		if c.IdleReads > maxIdleReads {
			panic(vlib.Stop{Kind: "busy-loop", Detail: fmt.Sprintf("the ended connection was read %d times", c.IdleReads)})
		}
		return 0, end
	}
	if c.readBy.over {
		return 0, os.ErrDeadlineExceeded
	}
	defer c.elapse()
	n := len(c.In) - c.pos
	if c.nthCut < len(c.Cuts) {
		if c.Cuts[c.nthCut] < n {
			n = c.Cuts[c.nthCut]
		}
	} else if c.One > 0 && c.One < n {
		n = c.One
	}
	if len(p) < n {
		n = len(p)
		if c.nthCut < len(c.Cuts) {
			c.Cuts[c.nthCut] -= n
		}
	} else if c.nthCut < len(c.Cuts) {
		c.nthCut++
	}
	copy(p, c.In[c.pos:c.pos+n])
	c.pos += n
	if c.pos == len(c.In) && c.WithEnd {
		return n, end
	}
	return n, nil
}

func (c *Conn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Writes++
	c.event("write")
	if c.failed {
		c.AfterFail++
	}
	if c.OnWrite != nil {
		c.OnWrite(b)
	}
	if c.FailWrite > 0 && c.Writes >= c.FailWrite {
		n := 0
		if c.ShortWrite && !c.failed {
			n = len(b) / 2
			c.Out.Write(b[:n])
		}
		c.failed = true
		return n, ErrInjected
	}
	if c.writeBy.over {
		c.failed = true
		return 0, os.ErrDeadlineExceeded
	}
	defer c.elapse()
	c.Out.Write(b)
	if len(c.WriteSizes) < 4096 {
		c.WriteSizes = append(c.WriteSizes, len(b))
	}
	max := c.MaxOut
	if max == 0 {
		max = 64 << 20
	}
	if c.Out.Len() > max {
		panic(vlib.Stop{Kind: "endless-output", Detail: fmt.Sprintf("%d bytes written", c.Out.Len())})
	}
	return len(b), nil
}

func (c *Conn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Closes++
	c.event("close")
	return nil
}

func (c *Conn) LocalAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 80} }
func (c *Conn) RemoteAddr() net.Addr {
	return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 2), Port: 12345}
}
func (c *Conn) SetDeadline(t time.Time) error {
	_ = c.SetWriteDeadline(t)
	return c.SetReadDeadline(t)
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.Deadlines) < 64 {
		c.Deadlines = append(c.Deadlines, time.Until(t))
	}
	c.readBy.at(t)
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.writeBy.at(t)
	return nil
}

// Router is a router made of two functions.
type Router struct {
	Req func(*http.Request) *http.Response
	Err func(*http.Request, error) *http.Response
}

func (r Router) OnRequest(q *http.Request) *http.Response { return r.Req(q) }
func (r Router) OnError(q *http.Request, err error) *http.Response {
	if r.Err == nil {
		return http.Error(q, err)
	}
	return r.Err(q, err)
}

// Serve runs the server on the connection until it gives up. A panic or busy loop is a violation.
func Serve(r *vlib.Run, kind string, cs any, cfg config.Config, c *Conn, rt router.Router) bool {
	return ServeEnc(r, kind, cs, cfg, c, encryption.Plain, rt)
}

// ServeEnc is Serve with the encryption of the listener.
func ServeEnc(r *vlib.Run, kind string, cs any, cfg config.Config, c *Conn, enc encryption.Token, rt router.Router) bool {
	return r.Guard(kind, cs, func() { serve.HTTP1(cfg, c, enc, rt) })
}

// RandomCuts splits n bytes into random deliveries.
func RandomCuts(g interface{ Intn(int) int }, n int) (cuts []int) {
	max := []int{1, 2, 4, 9, 40, 300}[g.Intn(6)]
	if n > 20000 {
		max = []int{9, 300, 5000, 70000}[g.Intn(4)]
	}
	for left := n; left > 0; {
		k := 1 + g.Intn(max)
		cuts = append(cuts, k)
		left -= k
	}
	return cuts
}
