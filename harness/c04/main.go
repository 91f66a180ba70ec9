//go:build go1.22

// Monitor of C04: built responses, decoded from the wire by a strict parser and by net/http.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	nethttp "net/http"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/types"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
	. "github.com/indigo-web/indigo/internal/zzverif/vsrv"
)

// desc describes a response and what must be received.
type desc struct {
	Code     int
	Status   string
	Headers  [][2]string
	Type     string
	Cookies  int
	Kind     string // none, bytes, string, write, json, file, sized, unsized
	Body     []byte
	Announce int
	Pattern  []int
	WithErr  bool
	Err      error
	Fail     int // -1 or position of a stream failure
	Short    bool
	Defaults map[string]string
	RespBuf  int
	FileBuf  int
	Ext      string
}

type jsonModel struct {
	Name string
	List []int
	Sub  map[string]string
}

var codes = []int{200, 201, 202, 203, 204, 205, 206, 207, 208, 226, 300, 301, 302, 303, 304, 305, 307, 308, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409,
	410, 411, 412, 413, 414, 415, 416, 417, 418, 421, 422, 423, 424, 425, 426, 428, 429, 431, 451, 500, 501, 502, 503, 504, 505, 506, 507, 508, 510, 511}

func reason(code int) string {
	if s := nethttp.StatusText(code); s != "" && code != 306 {
		return s
	}
	return "Unknown Status Code"
}

func genBody(g *rand.Rand, fileBuf int) []byte {
	n := 0
	switch g.Intn(6) {
	case 0:
	case 1:
		n = 1 + g.Intn(5)
	case 2:
		n = g.Intn(100)
	case 3:
		n = fileBuf*(1+g.Intn(3)) + g.Intn(25) - 12
	case 4:
		n = 1000 + g.Intn(200)
	case 5:
		n = g.Intn(3000)
	}
	if n < 0 {
		n = 0
	}
	if n > 300000 {
		n = 300000 - g.Intn(20)
	}
	b := Bytes(g, n)
	if Chance(g, 30) {
		for i := range b {
			b[i] = "0\r\n\r\nHTTP/1.1 200 OK\r\n"[i%22]
		}
	}
	return b
}

// header fields applications send
var usual = []string{"Content-Encoding", "Content-Language", "Content-Location", "Content-Disposition", "Content-Range", "Content-Security-Policy", "Vary", "ETag", "Last-Modified", "Cache-Control", "Expires", "Age",
	"Location", "Server", "Date", "Allow", "Accept-Ranges", "Accept-Encodings", "Accept-Encoding", "Retry-After", "WWW-Authenticate", "Strict-Transport-Security", "Access-Control-Allow-Origin", "X-Frame-Options", "Link", "Via", "Pragma",
	"Trailer-Like", "Content", "Transfer", "Content-Typ", "Content-Type-", "Content-Lengt", "Cookie", "Host", "Alt-Svc", "Keep-Alive", "Upgrade-Insecure-Requests"}

func gen(g *rand.Rand) desc {
	d := desc{Code: 200, Fail: -1, RespBuf: 1024, FileBuf: 65536}
	if Chance(g, 60) {
		d.FileBuf = Pick(g, []int{1, 15, 16, 17, 18, 20, 32, 100, 255, 256, 257, 4096, 70000})
		d.RespBuf = 1 + g.Intn(Pick(g, []int{1, 10, 300, 3000}))
	}
	if Chance(g, 50) {
		d.Code = Pick(g, codes)
		if Chance(g, 15) {
			d.Code = 200 + g.Intn(799)
		}
	}
	if Chance(g, 15) {
		d.Status = Word(g, Alnum+" -'.", 1, 20)
		d.Status = strings.TrimSpace(d.Status) + "z"
	}
	for n := g.Intn(Pick(g, []int{1, 4, 12})); n > 0; n-- {
		name := GenName(g)
		if Chance(g, 25) {
			name = RandCase(g, Pick(g, usual))
		}
		if strings.EqualFold(name, "set-cookie") || strings.EqualFold(name, "connection") {
			continue
		}
		d.Headers = append(d.Headers, [2]string{name, GenValue(g)})
		if Chance(g, 20) {
			d.Headers = append(d.Headers, [2]string{RandCase(g, name), GenValue(g)})
		}
	}
	d.Defaults = map[string]string{}
	for n := g.Intn(4); n > 0; n-- {
		d.Defaults["D-"+Word(g, Lower, 1, 6)] = GenValue(g)
	}
	if Chance(g, 30) {
		for k := range d.Defaults {
			d.Headers = append(d.Headers, [2]string{RandCase(g, k), "overridden"})
			break
		}
	}
	if Chance(g, 30) {
		d.Type = Pick(g, []string{"text/plain", "application/x; a=b", "image/png", "text/html; charset=utf-8"})
	}
	if Chance(g, 20) {
		d.Cookies = 1 + g.Intn(3)
	}
	d.Kind = Pick(g, []string{"none", "bytes", "bytes", "string", "write", "json", "file", "sized", "sized", "unsized", "unsized"})
	switch d.Kind {
	case "none":
	case "json":
	case "file":
		d.Body = genBody(g, d.FileBuf)
		d.Ext = Pick(g, []string{".html", ".png", ".unknown", "", ".json", ".gz"})
	default:
		d.Body = genBody(g, d.FileBuf)
	}
	d.Announce = len(d.Body)
	if d.Kind == "sized" || d.Kind == "unsized" {
		s := GenStream(g, nil)
		d.Pattern, d.WithErr, d.Err = s.Sizes, s.WithErr, s.Err
		if d.Kind == "sized" {
			if len(d.Body) == 0 {
				d.Body = []byte("x")
			}
			d.Announce = len(d.Body)
			switch g.Intn(10) {
			case 0: // the stream is longer
				d.Announce = 1 + g.Intn(len(d.Body))
			case 1: // shorter
				d.Announce = len(d.Body) + 1 + g.Intn(50)
				d.Short = true
			case 2:
				d.Fail = g.Intn(len(d.Body) + 1)
				d.Short = d.Fail < d.Announce
			}
		} else {
			d.Announce = Pick(g, []int{-1, 0, -5})
			if Chance(g, 15) {
				d.Fail = g.Intn(len(d.Body) + 1)
				d.Short = true
			}
		}
	}
	return d
}

// large makes much of something of the response
func large(g *rand.Rand, d desc) desc {
	if Chance(g, 60) {
		for n := g.Intn(400); n > 0; n-- {
			d.Headers = append(d.Headers, [2]string{fmt.Sprintf("L-%d", n), Word(g, Alnum, 0, Pick(g, []int{10, 10, 100, 5000}))})
		}
	}
	if Chance(g, 40) {
		d.Headers = append(d.Headers, [2]string{"X-Long", Word(g, Alnum, 1, 200000)}, [2]string{Word(g, Alnum, 1, 5000) + "-", "x"})
	}
	if Chance(g, 40) {
		for n := g.Intn(100); n > 0; n-- {
			d.Defaults[fmt.Sprintf("D-%d", n)] = Word(g, Alnum, 0, Pick(g, []int{10, 3000}))
		}
	}
	if Chance(g, 40) {
		d.Cookies = g.Intn(100)
	}
	if Chance(g, 20) {
		d.Status = Word(g, Alnum, 1, 3000)
	}
	if len(d.Body) > 0 && d.Fail == -1 && !d.Short && d.Announce <= len(d.Body) {
		cut := len(d.Body) - d.Announce
		d.Body = Bytes(g, len(d.Body)+g.Intn(Pick(g, []int{200000, 3 << 20})))
		d.FileBuf, d.Pattern = Pick(g, []int{100, 4096, 65536, 1 << 20, 4 << 20}), nil
		if d.Kind != "unsized" {
			d.Announce = len(d.Body) - cut
		}
	}
	return d
}

func (d desc) stream() io.Reader {
	return &Stream{Data: d.Body, Sizes: d.Pattern, WithErr: d.WithErr, Fail: d.Fail, Err: d.Err}
}

func hasBody(code int) bool { return code != 204 && code != 304 }

func check(r *Run, g *rand.Rand, d desc, i int) {
	r.Step("response %d (%s)", i, d.Kind)
	method := Pick(g, []string{"GET", "GET", "GET", "POST", "HEAD"})
	protocol := Pick(g, []string{"HTTP/1.1", "HTTP/1.1", "HTTP/1.0"})
	c := map[string]any{"desc": d, "method": method, "proto": protocol}
	var file string
	wantType := d.Type
	if wantType == "" {
		wantType = "text/html"
	}
	model := jsonModel{Word(g, Alnum+"<>&\"", 0, 20), []int{g.Intn(9)}, map[string]string{"k": Word(g, Alnum, 0, 5)}}
	if d.Kind == "file" {
		file = filepath.Join(r.Scratch, "file"+d.Ext)
		if err := os.WriteFile(file, d.Body, 0o600); err != nil {
			panic(err)
		}
		wantType = map[string]string{".html": "text/html; charset=utf-8", ".png": "image/png", ".json": "application/json", ".gz": "application/gzip"}[d.Ext]
		if wantType == "" {
			wantType = "application/octet-stream"
		}
	}
	wantBody := bytes.Clone(d.Body)
	if d.Kind == "sized" && d.Announce < len(d.Body) {
		wantBody = wantBody[:d.Announce]
	}
	if d.Kind == "json" {
		wantType = "application/json"
	}
	// the builder's calls come in any order
	var calls []func(*http.Response) *http.Response
	if d.Code != 200 {
		calls = append(calls, func(p *http.Response) *http.Response { return p.Code(status.Code(d.Code)) })
	}
	if d.Status != "" {
		calls = append(calls, func(p *http.Response) *http.Response { return p.Status(d.Status) })
	}
	calls = append(calls, func(p *http.Response) *http.Response {
		for _, h := range d.Headers {
			p = p.Header(h[0], h[1])
		}
		return p
	})
	if d.Cookies > 0 {
		calls = append(calls, func(p *http.Response) *http.Response {
			for k := 0; k < d.Cookies; k++ {
				p = p.Cookie(cookie.New(fmt.Sprint("c", k), fmt.Sprint("v", k)))
			}
			return p
		})
	}
	g.Shuffle(len(calls), func(i, j int) { calls[i], calls[j] = calls[j], calls[i] })
	handled := 0
	rt := Router{Req: func(req *http.Request) *http.Response {
		handled++
		if req.Path == "/next" {
			return http.String(req, "next")
		}
		p := req.Respond()
		for _, f := range calls {
			p = f(p)
		}
		switch d.Kind {
		case "bytes":
			p = p.Bytes(d.Body)
		case "string":
			p = p.String(string(d.Body))
		case "write":
			for b := d.Body; len(b) > 0; {
				n := 1 + g.Intn(len(b))
				k, err := p.Write(b[:n])
				if k != n || err != nil {
					r.Violate("write-result", c, "Write returned %d, %v for %d bytes", k, err, n)
				}
				b = b[n:]
			}
		case "json":
			p = p.JSON(model)
		case "file":
			p = p.File(file)
		case "sized", "unsized":
			p = p.Attachment(d.stream(), d.Announce)
		}
		if d.Type != "" && d.Kind != "json" && d.Kind != "file" {
			p = p.ContentType(d.Type)
		}
		return p
	}}
	cfg := config.Default()
	cfg.HTTP.ResponseBuffSize, cfg.HTTP.FileBuffSize = d.RespBuf, d.FileBuf
	cfg.Headers.Default = d.Defaults
	keep := ""
	if protocol == "HTTP/1.0" {
		keep = "Connection: keep-alive\r\n"
	}
	conn := &Conn{In: []byte(fmt.Sprintf("%s / %s\r\n%s\r\nGET /next HTTP/1.1\r\n\r\n", method, protocol, keep))}
	if !Serve(r, "serve", c, cfg, conn, rt) {
		return
	}
	out := conn.Out.Bytes()
	r.Count("responses", 1)
	r.Count("kind_"+d.Kind, 1)
	r.Eval(fmt.Sprintf("%+v%s%s%d", d, method, protocol, len(out)))
	fail := func(kind, f string, a ...any) {
		r.Violate(kind, c, "%s\noutput: %s", fmt.Sprintf(f, a...), Q(out))
	}

	noBody := method == "HEAD" || !hasBody(d.Code)
	untilClose := protocol == "HTTP/1.0" && !noBody && (d.Kind == "unsized" || (d.Kind == "file" && len(d.Body) == 0))
	if d.Short && !noBody {
		r.Count("failing_streams", 1)
		// the client must notice, and nothing may follow
		if handled != 1 || bytes.Contains(out, []byte("\r\n\r\nnext")) {
			fail("served-after-broken-stream", "%d requests were handled although the first response is broken", handled)
		}
		resp, _, err := ParseResponse(out, false)
		if err == nil && !untilClose {
			fail("broken-stream-complete", "a stream that failed is received as the complete response %q", resp.Body)
		}
		if untilClose && !bytes.HasPrefix(d.Body, resp.Body) {
			fail("broken-stream-content", "received %q", resp.Body)
		}
		return
	}

	resp, rest, err := ParseResponse(out, method == "HEAD")
	if err != nil {
		fail("malformed", "strict client: %v", err)
		return
	}
	if resp.Proto != protocol {
		fail("protocol", "answered in %s", resp.Proto)
	}
	wantReason := d.Status
	if wantReason == "" {
		wantReason = reason(d.Code)
	}
	if resp.Code != d.Code || resp.Reason != wantReason {
		fail("status", "status %d %q, want %d %q", resp.Code, resp.Reason, d.Code, wantReason)
	}
	if d.Kind == "json" && !noBody {
		var m jsonModel
		if err := json.Unmarshal(resp.Body, &m); err != nil || !reflect.DeepEqual(m, model) {
			fail("json", "body %q is not %+v: %v", resp.Body, model, err)
		}
		wantBody = resp.Body
	}
	if noBody {
		wantBody = nil
	}
	if !bytes.Equal(resp.Body, wantBody) {
		at := 0
		for at < len(resp.Body) && at < len(wantBody) && resp.Body[at] == wantBody[at] {
			at++
		}
		fail("body/"+d.Kind, "a body of %d bytes instead of %d, equal up to %d", len(resp.Body), len(wantBody), at)
	}
	// framing as announced
	switch {
	case method == "HEAD" && hasBody(d.Code) && d.Kind != "unsized" && d.Kind != "json" && !(d.Kind == "file" && len(d.Body) == 0):
		if cl := resp.Get("content-length"); len(cl) != 1 || cl[0] != fmt.Sprint(d.Announce) {
			fail("head-length", "Content-Length %q for HEAD, GET has %d bytes", cl, d.Announce)
		}
	case untilClose:
		if resp.Framing != "close" {
			fail("framing", "framing %s", resp.Framing)
		}
	}
	// headers
	own := resp.Headers
	want := map[string][]string{}
	for _, h := range d.Headers {
		want[strings.ToLower(h[0])] = append(want[strings.ToLower(h[0])], h[1])
	}
	for k, v := range d.Defaults {
		if _, ok := want[strings.ToLower(k)]; !ok {
			want[strings.ToLower(k)] = []string{v}
		}
	}
	want["content-type"] = []string{wantType}
	for k := 0; k < d.Cookies; k++ {
		want["set-cookie"] = append(want["set-cookie"], fmt.Sprintf("c%d=v%d", k, k))
	}
	got := map[string][]string{}
	for _, h := range own {
		n := strings.ToLower(h[0])
		if n == "content-length" || n == "transfer-encoding" {
			continue
		}
		got[n] = append(got[n], h[1])
	}
	if !reflect.DeepEqual(got, want) {
		fail("headers", "headers %q, want %q", got, want)
	}
	// second opinion on the whole
	std, err := nethttp.ReadResponse(bufio.NewReader(bytes.NewReader(out)), &nethttp.Request{Method: method})
	if err != nil {
		fail("net/http", "net/http: %v", err)
	} else {
		b, err := io.ReadAll(std.Body)
		if err != nil || !bytes.Equal(b, wantBody) || std.StatusCode != d.Code {
			fail("net/http-body", "net/http: code %d, %d bytes of body, %v", std.StatusCode, len(b), err)
		}
	}
	// the connection goes on properly
	if untilClose {
		if handled != 1 {
			fail("until-close", "another request was served after a body delimited by the end of the connection")
		}
		return
	}
	next, rest, err := ParseResponse(rest, false)
	if err != nil || len(rest) != 0 || string(next.Body) != "next" || next.Code != 200 || handled != 2 {
		fail("following", "the following response is broken: %v %+v, %d handled, left %q", err, next, handled, rest)
	}
	if next.Code == 200 {
		for k, v := range d.Defaults {
			if vals := next.Get(k); len(vals) != 1 || vals[0] != strings.Trim(v, " \t") {
				fail("following-defaults", "default header %s is %q in the following response", k, vals)
			}
		}
		if len(next.Headers) != len(d.Defaults)+2 {
			fail("following-headers", "unexpected headers in the following response: %q", next.Headers)
		}
	}
	r.Count("followed", 1)
	r.Sample(d.Kind, c)
}

// attachments: a stream is described to the rest of the server by exactly what it was made of.
func attachments(r *Run) {
	sizes := []int{-1, 0, 1, 2, 15, 16, 17, 255, 256, 4095, 4096, 65535, 65536, 1 << 20, 1<<31 - 1, 1 << 31, 1<<32 + 5, 1 << 40}
	for _, size := range sizes {
		for i, content := range []io.Reader{nil, strings.NewReader(""), bytes.NewReader([]byte("content")), &bytes.Buffer{}, io.LimitReader(strings.NewReader("abc"), 2), os.Stdin} {
			a := types.NewAttachment(content, size)
			b := a // copied by value
			if a.Content() != content || b.Content() != content {
				r.Violate("attachment-content", i, "an attachment of size %d has another content", size)
			}
			if got := b.Size(); got != size {
				r.Violate("attachment-size", size, "the size of an attachment of %d is %d", size, got)
			}
			r.Eval(fmt.Sprint("attachment", size, i))
			r.Count("attachments", 1)
		}
	}
}

func main() {
	Main("C04", "response descriptions x method x protocol x buffer sizes; distinct by all of them", func(r *Run) {
		g := r.Rng("responses")
		attachments(r)
		// every code, with and without a body
		for _, code := range append([]int{299, 306, 430, 444, 599, 600, 999}, codes...) {
			for _, kind := range []string{"none", "bytes", "sized", "unsized"} {
				for k := 0; k < 3; k++ {
					d := desc{Code: code, Kind: kind, Fail: -1, RespBuf: 1024, FileBuf: 64}
					if kind != "none" {
						d.Body = []byte("the body of it")
						d.Announce = len(d.Body)
					}
					if kind == "unsized" {
						d.Announce = -1
					}
					check(r, g, d, code)
				}
			}
		}
		for i := 0; i < r.N(20000, 900000); i++ {
			check(r, g, gen(g), i)
		}
		for i := 0; i < r.N(250, 5000); i++ {
			check(r, g, large(g, gen(g)), i)
			r.Count("large", 1)
		}
		// stream sizes around buffer boundaries
		for fb := 16; fb <= r.N(40, 200); fb++ {
			for n := 1; n <= 2*fb+26; n++ {
				for _, kind := range []string{"sized", "unsized"} {
					d := desc{Code: 200, Kind: kind, Fail: -1, RespBuf: 64, FileBuf: fb, Body: Bytes(g, n), Announce: n, WithErr: n%2 == 0}
					if kind == "unsized" {
						d.Announce = -1
					}
					check(r, g, d, n)
				}
			}
		}
		for _, k := range []string{"none", "bytes", "string", "write", "json", "file", "sized", "unsized"} {
			r.Floor("kind_"+k, 1000)
		}
		r.Floor("failing_streams", 500)
		r.Floor("followed", 12000)
	})
}
