//go:build go1.22

// Monitor of C32: streams with a recorded life cycle (reads, close, order) and the table of open files of the process,
// observed over responses of every kind with faults injected into every read and write.
package main

import (
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/types"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
	. "github.com/indigo-web/indigo/internal/zzverif/vsrv"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/inbuilt/middleware"
)

// given is a stream that was given to a response.
type given struct {
	s    *Stream
	plan string
}

type scenario struct {
	methods []string
	protos  []string
	ups     []string
	plans   []plan
	bad     string // a malformed request at the end, answered with a stream too
	fail    int
	short   bool
	buff    int
	router  string
	close   bool
	cuts    bool
}

type plan struct {
	code    int
	data    int // bytes of the stream
	size    int // announced, -1: unknown
	fail    int // the stream fails there; -1: never
	cookies bool
	plain   bool // not a Closer
	empty   bool
}

func (p plan) String() string {
	return fmt.Sprintf("{code %d, %d bytes, announced %d, fails at %d, closer %v}", p.code, p.data, p.size, p.fail, !p.plain)
}

func (sc scenario) String() string {
	return fmt.Sprintf("%q %q upgrades %q %v bad %q failing write %d short %v buffer %d router %s", sc.methods, sc.protos, sc.ups, sc.plans, sc.bad, sc.fail, sc.short, sc.buff, sc.router)
}

func genPlan(g *rand.Rand, buff int) plan {
	p := plan{code: 200, fail: -1, cookies: Chance(g, 20), plain: Chance(g, 5)}
	if Chance(g, 15) {
		p.code = Pick(g, []int{201, 204, 304, 404, 500})
	}
	p.data = g.Intn(Pick(g, []int{1, 3, 2*buff + 2, 5*buff + 2, 300}) + 1)
	p.size = p.data
	switch g.Intn(6) {
	case 0, 1:
		p.size = -1
	case 2:
		p.size = p.data + g.Intn(10) // too much announced
	case 3:
		p.size = g.Intn(p.data + 1) // too little
	}
	if Chance(g, 30) {
		p.fail = g.Intn(p.data + 1)
	}
	return p
}

func run(r *Run, g *rand.Rand, sc scenario, seed int64) (writes int, ok bool) {
	// the same streams for every fault position
	sg := rand.New(rand.NewSource(seed))
	var stream []byte
	for i, m := range sc.methods {
		stream = fmt.Appendf(stream, "%s /s %s\r\nConnection: %s\r\n", m, sc.protos[i], map[bool]string{true: "keep-alive", false: "upgrade"}[sc.ups[i] == ""])
		if sc.ups[i] != "" {
			stream = fmt.Appendf(stream, "Upgrade: %s\r\n", sc.ups[i])
		}
		stream = append(stream, "\r\n"...)
	}
	stream = append(stream, sc.bad...)
	conn := &Conn{In: stream, FailWrite: sc.fail, ShortWrite: sc.short}
	if sc.cuts {
		conn.Cuts = RandomCuts(sg, len(stream))
	}
	c := map[string]any{"scenario": sc.String(), "seed": seed}
	r.Step("%v", c)
	var list []given
	late := ""
	make := func(req *http.Request, p plan) *http.Response {
		for i, gv := range list {
			if gv.s.Closes == 0 && !strings.HasPrefix(gv.plan, "plain") {
				late = fmt.Sprintf("stream %d isn't closed when the next response is made", i)
			}
		}
		s := GenStream(sg, Bytes(sg, p.data))
		s.Fail = p.fail
		resp := req.Respond().Code(status.Code(p.code))
		if p.cookies {
			resp.Cookie(cookie.New("a", "b"))
		}
		if p.plain {
			list = append(list, given{s, "plain " + p.String()})
			return resp.Attachment(s, p.size)
		}
		list = append(list, given{s, p.String()})
		return resp.Attachment(ClosableStream{s}, p.size)
	}
	nth := 0
	h := func(req *http.Request) *http.Response {
		p := sc.plans[nth%len(sc.plans)]
		nth++
		return make(req, p)
	}
	onErr := func(req *http.Request) *http.Response {
		if req.Env.Error == error(status.ErrCloseConnection) {
			return nil // notified only
		}
		return make(req, sc.plans[0])
	}
	var rt router.Router
	switch sc.router {
	case "simple":
		rt = Router{Req: h, Err: func(req *http.Request, err error) *http.Response {
			req.Env.Error = err
			return onErr(req)
		}}
	case "inbuilt":
		rt = inbuilt.New().Get("/s", h).Post("/s", h).RouteError(onErr, inbuilt.AllErrors).Initialize()
	case "middlewares":
		rt = inbuilt.New().Use(middleware.ServerHeader(), middleware.LogRequests(), middleware.Recover).
			Get("/s", h).Post("/s", h).RouteError(onErr, inbuilt.AllErrors).Initialize()
	case "errors":
		rt = inbuilt.New().Get("/other", h).RouteError(h, status.NotFound).RouteError(onErr, inbuilt.AllErrors).Initialize()
	}
	cfg := config.Default()
	cfg.HTTP.FileBuffSize = sc.buff
	if !Serve(r, "stream", c, cfg, conn, rt) {
		return 0, false
	}
	r.Eval(sc.String() + fmt.Sprint(seed))
	if late != "" {
		r.Violate("late", c, "%s", late)
		return 0, false
	}
	for i, gv := range list {
		r.Count("streams", 1)
		closer := !strings.HasPrefix(gv.plan, "plain")
		what := "complete"
		switch {
		case conn.FailWrite > 0 && conn.Writes >= conn.FailWrite:
			what = "failed_write"
		case gv.s.Fail >= 0 && gv.s.Ended:
			what = "failed_read"
		case gv.s.Reads == 0:
			what = "unread"
		}
		r.Count(what, 1)
		if !closer {
			continue
		}
		if gv.s.Closes == 0 {
			r.Violate("leaked/"+what, c, "stream %d %s isn't closed (%s)", i, gv.plan, what)
			return 0, false
		}
		if gv.s.Closes > 1 {
			r.Violate("closed-twice/"+what, c, "stream %d %s is closed %d times", i, gv.plan, gv.s.Closes)
			return 0, false
		}
		if gv.s.ReadsAfterClose > 0 {
			r.Violate("read-after-close/"+what, c, "stream %d %s is read after its close", i, gv.plan)
			return 0, false
		}
	}
	r.Sample("scenario", c)
	return conn.Writes, true
}

func scenarios(r *Run, g *rand.Rand) {
	sc := scenario{buff: Pick(g, []int{16, 20, 64, 1000, 65536}), router: Pick(g, []string{"simple", "inbuilt", "middlewares", "errors"}), cuts: Chance(g, 30)}
	for n := 1 + g.Intn(3); n > 0; n-- {
		sc.methods = append(sc.methods, Pick(g, []string{"GET", "GET", "HEAD"}))
		sc.protos = append(sc.protos, Pick(g, []string{"HTTP/1.1", "HTTP/1.1", "HTTP/1.0"}))
		up := ""
		if Chance(g, 10) {
			up = Pick(g, []string{"HTTP/1.1", "HTTP/1.0"})
		}
		sc.ups = append(sc.ups, up)
		sc.plans = append(sc.plans, genPlan(g, min(sc.buff, 200)))
	}
	if Chance(g, 25) {
		sc.bad = Pick(g, []string{"BAD / HTTP/1.1\r\n\r\n", "GET / HTTP/1.1\r\nno colon\r\n\r\n", "GET / HTTP/9.9\r\n\r\n", "GET / HTTP/1.1\r\nContent-Length: q\r\n\r\n"})
	}
	seed := g.Int63()
	writes, ok := run(r, g, sc, seed)
	if !ok {
		return
	}
	// then with every write failing
	limit := min(writes, r.N(12, 40))
	for k := 1; k <= limit; k++ {
		sc.fail, sc.short = k, g.Intn(2) == 0
		if _, ok := run(r, g, sc, seed); !ok {
			return
		}
	}
}

// open lists the open files below a directory.
func open(dir string) (files []string) {
	entries, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return nil
	}
	for _, e := range entries {
		if target, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(target, dir) {
			files = append(files, target)
		}
	}
	return files
}

func files(r *Run, g *rand.Rand, dir string, names []string) {
	var stream []byte
	var log []string
	rt := inbuilt.New().Static("/static", dir)
	if Chance(g, 30) {
		rt.Use(middleware.ServerHeader())
	}
	rt.Get("/file/{name}", func(req *http.Request) *http.Response {
		name := filepath.Join(dir, req.Params.Value("name"))
		if Chance(g, 30) {
			resp, err := req.Respond().TryFile(name)
			if err != nil {
				return http.Error(req, err)
			}
			return resp
		}
		return http.File(req, name)
	})
	n := 1 + g.Intn(6)
	for i := 0; i < n; i++ {
		q := fmt.Sprintf("%s %s%s HTTP/1.1\r\n\r\n", Pick(g, []string{"GET", "HEAD"}), Pick(g, []string{"/static/", "/file/"}), Pick(g, names))
		log = append(log, q)
		stream = append(stream, q...)
	}
	fail := 0
	if Chance(g, 40) {
		fail = 1 + g.Intn(8)
	}
	cfg := config.Default()
	cfg.HTTP.FileBuffSize = Pick(g, []int{16, 100, 65536})
	held := 0
	conn := &Conn{In: stream, FailWrite: fail, ShortWrite: Chance(g, 50), OnWrite: func([]byte) {
		if n := len(open(dir)); n > held {
			held = n
		}
	}}
	if Chance(g, 85) {
		conn.OnWrite = nil
	}
	c := map[string]any{"requests": log, "failing write": fail}
	r.Step("files %v", c)
	if !Serve(r, "files", c, cfg, conn, rt.Initialize()) {
		return
	}
	r.Eval(fmt.Sprint(c))
	r.Count("file_requests", int64(n))
	if conn.OnWrite != nil {
		r.Count("held_while_sending", int64(held))
		if held > 1 {
			r.Violate("files/held", c, "%d files are open at the same time on one connection", held)
		}
	}
	if left := open(dir); len(left) > 0 {
		r.Violate("files/leaked", c, "still open: %q", left)
	}
}

type (
	opaque    struct{ io.Reader }
	closing   struct{ *counter }
	seeking   struct{ *counter }
	writingTo struct{ *counter }
	counter   struct {
		strings.Reader
		closed int
		err    error
	}
)

func (c *counter) Close() error                                { c.closed++; return c.err }
func (c closing) Seek() string                                 { return "" }
func (c writingTo) WriteTo(w io.Writer, more int) (int, error) { return 0, nil }

// direct: closing an attachment closes whatever can be closed, of any kind and size.
func direct(r *Run) {
	for _, size := range []int{-1, 0, 1, 7, 4096, 1 << 31, 1 << 40} {
		for _, err := range []error{nil, os.ErrClosed, io.EOF} {
			c := &counter{err: err}
			for i, content := range []io.Reader{c, closing{c}, seeking{c}, writingTo{c}, opaque{c}, nil, strings.NewReader("x")} {
				c.closed = 0
				a := types.NewAttachment(content, size)
				want := 0
				if _, ok := content.(io.Closer); ok {
					want = 1
				}
				r.Guard("close", i, func() { a.Close() })
				if c.closed != want {
					r.Violate("attachment-close", i, "closing an attachment of kind %d, size %d closed its content %d times", i, size, c.closed)
				}
				r.Count("direct", 1)
				r.Eval(fmt.Sprint("direct", size, err, i))
			}
		}
	}
}

func main() {
	Main("C32", "random streams x announced sizes x failures x methods x versions x routers, each repeated with every write failing; files, missing files, directories", func(r *Run) {
		log.SetOutput(io.Discard)
		direct(r)
		g := r.Rng("streams")
		for i := 0; i < r.N(12000, 150000); i++ {
			scenarios(r, g)
		}
		dir := filepath.Join(r.Scratch, "files")
		names := []string{"a.txt", "empty", "big.bin", "sub", "missing", "sub/b.css", ""}
		err := os.MkdirAll(filepath.Join(dir, "sub"), 0o755)
		for n, size := range map[string]int{"a.txt": 10, "empty": 0, "big.bin": 150000, "sub/b.css": 300} {
			if err == nil {
				err = os.WriteFile(filepath.Join(dir, n), make([]byte, size), 0o644)
			}
		}
		if err != nil {
			r.Inconclusive("%v", err)
			return
		}
		// the table of open files must be readable
		f, err := os.Open(filepath.Join(dir, "a.txt"))
		if err != nil || len(open(dir)) != 1 {
			r.Inconclusive("the table of open files cannot be read: %v", err)
			return
		}
		_ = f.Close()
		g = r.Rng("files")
		for i := 0; i < r.N(6000, 60000); i++ {
			files(r, g, dir, names)
		}
		r.Floor("streams", 40000)
		r.Floor("complete", 5000)
		r.Floor("failed_write", 10000)
		r.Floor("failed_read", 2000)
		r.Floor("unread", 2000)
		r.Floor("file_requests", 10000)
		r.Floor("held_while_sending", 200)
	})
}
