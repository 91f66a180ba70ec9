//go:build go1.22

// Monitor of C30: random sequences of builder calls with guarded user memory (canaries around every slice, copies of every
// string, constants in read-only memory); the response on the wire is compared with a model of the calls.
package main

import (
	"bytes"
	stdjson "encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/serve"
	"github.com/indigo-web/indigo/http/status"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
	. "github.com/indigo-web/indigo/internal/zzverif/vsrv"
)

type Model struct {
	Name  string            `json:"name"`
	N     int               `json:"n"`
	Flag  bool              `json:"flag,omitempty"`
	List  []string          `json:"list"`
	Map   map[string]int    `json:"map"`
	Inner *Model            `json:"inner,omitempty"`
	Free  map[string]string `json:"-"`
}

func genModel(g *rand.Rand, depth int) *Model {
	m := &Model{Name: Word(g, Alnum+" \"\\/<>&\n\t{}[]:,", 0, Pick(g, []int{0, 5, 40, 3000})), N: g.Intn(2000) - 1000, Flag: Chance(g, 50)}
	for n := g.Intn(Pick(g, []int{1, 4, 60})); n > 0; n-- {
		m.List = append(m.List, Word(g, Alnum+"\u00e9\u4e16", 0, 12))
	}
	for i := range m.List {
		m.List[i] = strings.ToValidUTF8(m.List[i], "?")
	}
	for n := g.Intn(4); n > 0; n-- {
		if m.Map == nil {
			m.Map = map[string]int{}
		}
		m.Map[Word(g, Alnum, 0, 5)] = g.Intn(100)
	}
	if depth > 0 && Chance(g, 40) {
		m.Inner = genModel(g, depth-1)
	}
	return m
}

// arena keeps track of all the memory handed out.
type arena struct {
	backs, copies [][]byte
	strs          []string
	strCopies     []string
	what          []string
	later         []func() string
}

// keep guards a value that isn't text: its copy has to stay equal.
func keep[T any](a *arena, what string, v, cp T) {
	a.later = append(a.later, func() string {
		if !reflect.DeepEqual(v, cp) {
			return fmt.Sprintf("%s was %v, is %v", what, cp, v)
		}
		return ""
	})
}

func (a *arena) bytes(g *rand.Rand, data []byte, what string) []byte {
	pre, post := g.Intn(4), g.Intn(Pick(g, []int{1, 8, 5000}))
	back := make([]byte, pre+len(data)+post)
	for i := range back {
		back[i] = 0xA5
	}
	copy(back[pre:], data)
	a.backs = append(a.backs, back)
	a.copies = append(a.copies, append([]byte(nil), back...))
	a.what = append(a.what, what)
	return back[pre : pre+len(data)]
}

func (a *arena) str(s string) string {
	c := strings.Clone(s)
	a.strs = append(a.strs, c)
	a.strCopies = append(a.strCopies, strings.Clone(s))
	return c
}

func (a *arena) check() string {
	for i := range a.backs {
		if !bytes.Equal(a.backs[i], a.copies[i]) {
			return fmt.Sprintf("memory given to %s was %s, is %s", a.what[i], Q(a.copies[i]), Q(a.backs[i]))
		}
	}
	for _, f := range a.later {
		if what := f(); what != "" {
			return what
		}
	}
	for i := range a.strs {
		if a.strs[i] != a.strCopies[i] {
			return fmt.Sprintf("a given string was %q, is %q", a.strCopies[i], a.strs[i])
		}
	}
	return ""
}

type want struct {
	code    int
	reason  string
	ctype   string
	headers []string
	cookies []string
	body    []byte
	json    *Model
	attach  []byte
	hasAtt  bool
}

func fresh() want { return want{code: 200, ctype: "text/html"} }

var constants = []string{"constant text", "another constant, a bit longer than the first one", "", "x"}

var codes = []int{200, 201, 202, 203, 206, 300, 301, 302, 303, 307, 308, 400, 401, 403, 404, 405, 409, 410, 413, 418, 422, 429, 431, 451, 500, 501, 502, 503, 505, 511}

var httpErrors = []error{status.ErrBadRequest, status.ErrNotFound, status.ErrForbidden, status.ErrTeapot, status.ErrMethodNotAllowed, status.ErrBodyTooLarge,
	status.ErrInternalServerError, status.ErrGatewayTimeout, status.ErrUnsupportedMediaType, status.NewError(status.Conflict, "custom"), status.ErrTooManyRequests}
var httpErrorCodes = []int{400, 404, 403, 418, 405, 413, 500, 504, 415, 409, 429}

type env struct {
	file, content, dir string
}

// build applies random calls to a response and its model.
func build(r *Run, g *rand.Rand, e env, resp *http.Response, w *want, a *arena, ops *[]string) *http.Response {
	op := func(f string, v ...any) { *ops = append(*ops, fmt.Sprintf(f, v...)) }
	n := g.Intn(9)
	if Chance(g, 2) {
		n = 20 + g.Intn(130) // many of everything
	}
	for ; n > 0; n-- {
		switch k := g.Intn(24); k {
		case 0:
			w.code = Pick(g, codes)
			op("Code(%d)", w.code)
			resp = resp.Code(status.Code(w.code))
		case 1:
			w.reason = Pick(g, []string{"Fine", "Not So Fine", "x"})
			op("Status(%s)", w.reason)
			resp = resp.Status(status.Status(a.str(w.reason)))
		case 2:
			w.ctype = Pick(g, []string{"text/plain", "application/x-thing", "text/html; charset=utf-8"})
			op("ContentType(%s)", w.ctype)
			if Chance(g, 50) {
				resp = resp.ContentType(a.str(w.ctype))
			} else {
				resp = resp.Header(RandCase(g, "Content-Type"), a.str(w.ctype))
			}
		case 3, 4:
			key := "X-" + Word(g, Alnum, 1, 4)
			vals := make([]string, g.Intn(4), 6)
			if len(vals) == 0 && Chance(g, 50) {
				// nothing to set, whatever the header is
				key = RandCase(g, Pick(g, []string{"Content-Type", "Transfer-Encoding", "Content-Length"}))
			}
			if len(vals) > 0 && Chance(g, 1) {
				vals = make([]string, 30+g.Intn(100))
			}
			for i := range vals {
				vals[i] = a.str("v" + Word(g, Alnum, 0, 4))
				w.headers = append(w.headers, strings.ToLower(key)+": "+vals[i])
			}
			keep(a, "the slice given to Header", vals[:cap(vals)], append([]string(nil), vals[:cap(vals)]...))
			op("Header(%s, %q)", key, vals)
			resp = resp.Header(a.str(key), vals...)
		case 5:
			m := map[string][]string{}
			for i := g.Intn(3); i > 0; i-- {
				key := "Y-" + Word(g, Lower, 1, 3)
				m[key] = append(make([]string, 0, 2+g.Intn(3)), "1"+Word(g, Alnum, 0, 3), "2"+Word(g, Alnum, 0, 3))
				keep(a, "a slice given to Headers", m[key][:cap(m[key])], append([]string(nil), m[key][:cap(m[key])]...))
			}
			cp := map[string][]string{}
			for k, v := range m {
				cp[k] = append([]string(nil), v...)
				for _, s := range v {
					w.headers = append(w.headers, strings.ToLower(k)+": "+s)
				}
			}
			op("Headers(%v)", m)
			keep(a, "the map given to Headers", m, cp)
			resp = resp.Headers(m)
		case 6:
			s := Pick(g, constants)
			w.body, w.json = []byte(s), nil
			op("String(constant %q)", s)
			resp = resp.String(s)
		case 7:
			s := Word(g, Alnum, 0, Pick(g, []int{3, 50, 3000}))
			w.body, w.json = []byte(s), nil
			op("String(%d bytes)", len(s))
			resp = resp.String(a.str(s))
		case 8, 9:
			b := a.bytes(g, Bytes(g, g.Intn(Pick(g, []int{1, 5, 100, 3000}))), "Bytes")
			w.body, w.json = append([]byte(nil), b...), nil
			op("Bytes(%d of %d)", len(b), cap(b))
			resp = resp.Bytes(b)
		case 10, 11, 12:
			b := a.bytes(g, Bytes(g, g.Intn(Pick(g, []int{1, 5, 100, 3000}))), "Write")
			if w.json != nil {
				// appended to rendered JSON: not a document any more
				j, _ := stdjson.Marshal(w.json)
				_ = j
				op("(no Write after JSON)")
				continue
			}
			w.body = append(w.body, b...)
			op("Write(%d)", len(b))
			n, err := resp.Write(b)
			if n != len(b) || err != nil {
				r.Violate("write", *ops, "Write of %d bytes returns %d, %v", len(b), n, err)
			}
		case 13, 14:
			m := genModel(g, 2)
			w.json, w.body, w.ctype = m, nil, "application/json"
			op("JSON(%.80s)", fmt.Sprintf("%+v", *m))
			if Chance(g, 50) {
				resp = resp.JSON(m)
			} else {
				var err error
				resp, err = resp.TryJSON(m)
				if err != nil {
					r.Violate("json/error", *ops, "TryJSON: %v", err)
				}
			}
		case 15:
			// what cannot be represented
			op("JSON(unsupported)")
			before := len(w.body)
			_ = before
			resp = resp.JSON(struct{ A, B any }{"text", make(chan int)})
			w.code, w.json, w.body, w.ctype = 500, nil, nil, "application/json"
			w.body = []byte("\x00any") // some text
		case 16:
			i := g.Intn(len(httpErrors))
			op("Error(%v)", httpErrors[i])
			w.code = httpErrorCodes[i]
			if Chance(g, 30) {
				resp = resp.Error(httpErrors[i], []status.Code{status.Teapot, status.Accepted, 599}[:1+i%3]...)
			} else {
				resp = resp.Error(httpErrors[i])
			}
		case 17:
			text := "failure " + Word(g, Alnum, 0, 8)
			err := errors.New(a.str(text))
			w.code, w.body, w.json = 500, []byte(text), nil
			if Chance(g, 50) {
				w.code = Pick(g, codes)
				op("Error(%s, %d, 599)", text, w.code)
				resp = resp.Error(err, status.Code(w.code), 599)
			} else {
				op("Error(%s)", text)
				resp = resp.Error(err)
			}
		case 18:
			op("Error(nil)")
			if Chance(g, 50) {
				resp = resp.Error(nil)
			} else {
				resp = resp.Error(nil, status.Teapot)
			}
		case 19, 22, 23:
			cs := make([]cookie.Cookie, g.Intn(3), 5)
			for i := range cs {
				cs[i] = cookie.New("c"+Word(g, Alnum, 0, 3), Word(g, Alnum, 1, 5))
				w.cookies = append(w.cookies, cs[i].Name+"="+cs[i].Value)
			}
			keep(a, "the slice given to Cookie", cs[:cap(cs)], append([]cookie.Cookie(nil), cs[:cap(cs)]...))
			op("Cookie(%d)", len(cs))
			resp = resp.Cookie(cs...)
		case 20:
			if Chance(g, 40) {
				op("Clear")
				resp = resp.Clear()
				*w = fresh()
				continue
			}
			w.attach, w.hasAtt = Bytes(g, 1+g.Intn(Pick(g, []int{3, 200, 5000}))), true
			size := len(w.attach)
			if Chance(g, 50) {
				size = -1
			}
			op("Attachment(%d, %d)", len(w.attach), size)
			resp = resp.Attachment(bytes.NewReader(a.bytes(g, w.attach, "Attachment")), size)
		case 21:
			if Chance(g, 50) {
				op("File(existing)")
				w.ctype, w.attach, w.hasAtt = "*", []byte(e.content), true
				if Chance(g, 50) {
					resp = resp.File(a.str(e.file))
				} else {
					var err error
					if resp, err = resp.TryFile(a.str(e.file)); err != nil {
						r.Violate("file", *ops, "TryFile: %v", err)
					}
				}
				continue
			}
			missing := Pick(g, []string{e.dir + "/missing.css", e.dir, e.file + "/x"})
			if Chance(g, 50) {
				op("TryFile(missing)")
				var err error
				resp, err = resp.TryFile(missing)
				if err != error(status.ErrNotFound) {
					r.Violate("file-missing", *ops, "TryFile(%s): %v", missing, err)
				}
				continue
			}
			op("File(missing)")
			w.code = 404
			resp = resp.File(missing)
		}
	}
	return resp
}

func one(r *Run, g *rand.Rand, e env) {
	n := 1 + g.Intn(4)
	stream := bytes.Repeat([]byte("GET / HTTP/1.1\r\n\r\n"), n)
	a := &arena{}
	var wants []want
	var all [][]string
	own := http.NewResponse()
	conn := &Conn{In: stream}
	r.Step("builder")
	c := func() any { return all }
	ok := r.Guard("builder", &all, func() {
		ServeRaw(conn, Router{Req: func(req *http.Request) *http.Response {
			w := fresh()
			var ops []string
			var resp *http.Response
			switch g.Intn(6) {
			case 0:
				resp = http.NewResponse()
				ops = append(ops, "NewResponse")
			case 1:
				resp = own.Clear()
				ops = append(ops, "own.Clear")
			case 2:
				// the shortcuts, which start over, too
				build(r, g, e, req.Respond(), &want{}, a, &ops)
				switch g.Intn(8) {
				case 0:
					s := Pick(g, constants)
					resp = http.String(req, s)
					w.body = []byte(s)
					ops = append(ops, "http.String("+s+")")
				case 1:
					w.code = Pick(g, codes)
					resp = http.Code(req, status.Code(w.code))
					ops = append(ops, fmt.Sprintf("http.Code(%d)", w.code))
				case 2:
					b := a.bytes(g, Bytes(g, g.Intn(100)), "Bytes")
					w.body = append([]byte(nil), b...)
					resp = http.Bytes(req, b)
					ops = append(ops, "http.Bytes")
				case 3:
					w.json, w.ctype = genModel(g, 2), "application/json"
					resp = http.JSON(req, w.json)
					ops = append(ops, "http.JSON")
				case 4:
					k := g.Intn(len(httpErrors))
					w.code = httpErrorCodes[k]
					resp = http.Error(req, httpErrors[k], []status.Code{status.Teapot, status.Accepted, 599}[:1+k%3]...)
					ops = append(ops, fmt.Sprintf("http.Error(%v, 418)", httpErrors[k]))
				case 5:
					w.code, w.body = Pick(g, codes), []byte("plain failure")
					resp = http.Error(req, errors.New("plain failure"), status.Code(w.code), 599)
					ops = append(ops, fmt.Sprintf("http.Error(plain failure, %d, 599)", w.code))
				case 6:
					resp = http.Error(req, nil, status.Teapot)
					ops = append(ops, "http.Error(nil, 418)")
				case 7:
					resp = http.Respond(req)
					ops = append(ops, "http.Respond")
				}
				r.Count("shortcuts", 1)
			case 3:
				// start over after having built something
				build(r, g, e, req.Respond(), &want{}, a, &ops)
				resp = req.Respond()
				ops = append(ops, "Respond")
			default:
				resp = req.Respond()
				ops = append(ops, "Respond")
			}
			resp = build(r, g, e, resp, &w, a, &ops)
			wants = append(wants, w)
			all = append(all, ops)
			return resp
		}})
	})
	if !ok {
		return
	}
	r.Eval(fmt.Sprint(all))
	if what := a.check(); what != "" {
		r.Violate("memory", c(), "%s", what)
		return
	}
	r.Count("guarded", int64(len(a.backs)+len(a.strs)+len(a.later)))
	for i, s := range []string{"constant text", "another constant, a bit longer than the first one", "", "x"} {
		if constants[i] != s {
			r.Violate("memory/constant", c(), "the constant %q became %q", s, constants[i])
			return
		}
	}
	rs, err := ParseAll(conn.Out.Bytes(), nil)
	if err != nil || len(rs) != len(wants) || len(wants) != n {
		r.Violate("responses", c(), "%d responses to %d requests (%v): %s", len(rs), n, err, Q(conn.Out.Bytes()))
		return
	}
	for i, w := range wants {
		resp := rs[i]
		id := map[string]any{"calls": all[i], "previous": all[:i]}
		if resp.Code != w.code {
			r.Violate("code", id, "the code is %d, expected %d", resp.Code, w.code)
			return
		}
		if w.reason != "" && resp.Reason != w.reason {
			r.Violate("status", id, "the status is %q, expected %q", resp.Reason, w.reason)
			return
		}
		if ct := resp.Get("Content-Type"); len(ct) != 1 || (ct[0] != w.ctype && w.ctype != "*") {
			r.Violate("content-type", id, "the content type is %q, expected %q", ct, w.ctype)
			return
		}
		var hs, cs []string
		for _, h := range resp.Headers {
			switch k := strings.ToLower(h[0]); {
			case strings.HasPrefix(k, "x-"), strings.HasPrefix(k, "y-"):
				hs = append(hs, k+": "+h[1])
			case k == "set-cookie":
				cs = append(cs, h[1])
			case k == "content-type", k == "content-length", k == "transfer-encoding", k == "accept-encodings":
			default:
				r.Violate("headers", id, "unexpected header %q", h)
				return
			}
		}
		byName := func(l []string) {
			sort.SliceStable(l, func(i, j int) bool { return strings.SplitN(l[i], ":", 2)[0] < strings.SplitN(l[j], ":", 2)[0] })
		}
		byName(hs)
		byName(w.headers)
		if strings.Join(hs, "\n") != strings.Join(w.headers, "\n") {
			r.Violate("headers", id, "the headers are %q, expected %q", hs, w.headers)
			return
		}
		if strings.Join(cs, "\n") != strings.Join(w.cookies, "\n") {
			r.Violate("cookies", id, "the cookies are %q, expected %q", cs, w.cookies)
			return
		}
		r.Count("compared", 1)
		switch {
		case w.hasAtt:
			if !bytes.Equal(resp.Body, w.attach) {
				r.Violate("attachment", id, "the body is %s, expected %s", Q(resp.Body), Q(w.attach))
				return
			}
			r.Count("attachments", 1)
		case w.json != nil:
			r.Count("json_written", 1)
			var back Model
			if err := stdjson.Unmarshal(resp.Body, &back); err != nil || !sameModel(&back, w.json) {
				r.Violate("json/written", id, "the JSON %s (%v) isn't the model %+v", Q(resp.Body), err, *w.json)
				return
			}
		case bytes.HasPrefix(w.body, []byte("\x00any")):
			r.Count("json_failed", 1)
			if !bytes.HasSuffix(resp.Body, w.body[4:]) || len(resp.Body) == len(w.body)-4 {
				r.Violate("json/failure", id, "a failed JSON has the body %s", Q(resp.Body))
				return
			}
		default:
			if !bytes.Equal(resp.Body, w.body) {
				r.Violate("body", id, "the body is %s, expected %s", Q(resp.Body), Q(w.body))
				return
			}
		}
	}
	r.Sample("calls", c())
}

// sameModel compares up to nil and empty collections.
func sameModel(a, b *Model) bool {
	x, err1 := stdjson.Marshal(a)
	y, err2 := stdjson.Marshal(b)
	return err1 == nil && err2 == nil && bytes.Equal(x, y)
}

// read: JSON requests.
func read(r *Run, g *rand.Rand) {
	m := genModel(g, 2)
	m.Free = nil
	doc, _ := stdjson.Marshal(m)
	if Chance(g, 30) {
		doc, _ = stdjson.MarshalIndent(m, "", "  ")
	}
	if Chance(g, 20) {
		doc = append(doc, Pick(g, []string{" ", "\n", "\r\n", "\t \n"})...)
	}
	kind := Pick(g, []string{"ok", "ok", "ok", "truncated", "garbage", "tail", "mismatch", "empty", "type", "broken"})
	ctype := Pick(g, []string{"", "application/json"})
	switch kind {
	case "truncated":
		doc = bytes.TrimSpace(doc)
		doc = doc[:g.Intn(len(doc))]
	case "garbage":
		doc = append([]byte(Pick(g, []string{"x", "<", "}", "]", "nul", "1:"})), doc...)
	case "tail":
		doc = append(doc, Pick(g, []string{"x", "}", "]", ",", "{}", string(doc), " 1", "\n\"", "null", "\r\n\r\n:", " // comment"})...)
	case "mismatch":
		doc = []byte(Pick(g, []string{`{"n":"text"}`, `{"name":1}`, `{"list":{}}`, `[1,2]`, `{"flag":"yes"}`, `{"map":[1]}`, `{"inner":5}`}))
	case "empty":
		doc = nil
	case "type":
		ctype = Pick(g, []string{"text/plain", "text/html", "application/jso", "application/jsonx", "multipart/form-data; boundary=x", "application/xml", "a", "application/x-www-form-urlencoded"})
	}
	head := "POST / HTTP/1.1\r\n"
	if ctype != "" {
		head += RandCase(g, "Content-Type") + ": " + ctype + "\r\n"
	}
	var stream []byte
	if Chance(g, 50) {
		stream = append([]byte(head+"Transfer-Encoding: chunked\r\n\r\n"), Chunk(g, doc)...)
	} else {
		stream = append([]byte(fmt.Sprintf("%sContent-Length: %d\r\n\r\n", head, len(doc))), doc...)
	}
	next := 2
	if kind == "broken" {
		// the body is damaged or ends early
		next = 1
		if Chance(g, 50) {
			b := Chunk(g, doc)
			stream = append([]byte(head+"Transfer-Encoding: chunked\r\n\r\n"), b[:g.Intn(len(b))]...)
			if Chance(g, 50) {
				stream = append(stream, "\x00\x00zz\r\n\r\n"...)
			}
		} else if Chance(g, 20) {
			stream = []byte(fmt.Sprintf("%sContent-Length: %d\r\n\r\n%s", head, 1<<40, doc))
		} else {
			stream = append([]byte(fmt.Sprintf("%sContent-Length: %d\r\n\r\n", head, len(doc)+1+g.Intn(5))), doc[:len(doc)-g.Intn(2)]...)
		}
	} else {
		stream = append(stream, "GET / HTTP/1.1\r\n\r\n"...)
	}
	conn := &Conn{In: stream}
	if Chance(g, 60) {
		conn.Cuts = RandomCuts(g, len(stream))
	}
	c := map[string]any{"stream": Q(stream), "kind": kind}
	r.Step("read %s", kind)
	var got Model
	var err error
	calls := 0
	if !Serve(r, "read", c, config.Default(), conn, Router{Req: func(req *http.Request) *http.Response {
		calls++
		if calls == 1 {
			err = req.JSON(&got)
		}
		return req.Respond()
	}}) {
		return
	}
	r.Eval("read" + string(stream))
	r.Count("json_read_"+kind, 1)
	if calls != next && kind != "broken" {
		r.Violate("json/next", c, "%d requests handled, expected 2", calls)
		return
	}
	switch kind {
	case "ok":
		if err != nil || !sameModel(&got, m) {
			r.Violate("json/read", c, "JSON gives %+v, %v, expected %+v", got, err, *m)
		}
	case "type":
		if err != error(status.ErrUnsupportedMediaType) {
			r.Violate("json/media-type", c, "content type %q: %v", ctype, err)
		}
		if !reflect.DeepEqual(got, Model{}) {
			r.Violate("json/media-type", c, "content type %q, but the model was filled", ctype)
		}
	default:
		if err == nil {
			r.Violate("json/malformed", c, "the %s document is accepted", kind)
		}
	}
	if kind == "broken" {
		// the reading of the very same body fails with the same error
		var want error
		twin := &Conn{In: stream, Cuts: conn.Cuts}
		first := true
		Serve(r, "read-twin", c, config.Default(), twin, Router{Req: func(req *http.Request) *http.Response {
			if first {
				_, want = req.Body.Bytes()
			}
			first = false
			return req.Respond()
		}})
		if want != nil {
			r.Count("json_body_errors", 1)
			if err != want {
				r.Violate("json/body-error", c, "JSON fails with %v, reading the body with %v", err, want)
			}
		}
	}
}

// ServeRaw serves without a guard of its own.
func ServeRaw(conn *Conn, rt Router) { serve.HTTP1(config.Default(), conn, encryption.Plain, rt) }

func main() {
	Main("C30", "random sequences of all builder calls over several requests with guarded memory; JSON documents read with all kinds of framing and defects", func(r *Run) {
		log.SetOutput(io.Discard)
		debug.SetPanicOnFault(true)
		dir := filepath.Join(r.Scratch, "files")
		e := env{file: filepath.Join(dir, "a.css"), content: "body{}", dir: dir}
		if err := os.MkdirAll(dir, 0o755); err == nil {
			err = os.WriteFile(e.file, []byte(e.content), 0o644)
			if err != nil {
				r.Inconclusive("%v", err)
				return
			}
		}
		g := r.Rng("builder")
		for i := 0; i < r.N(40000, 500000); i++ {
			one(r, g, e)
		}
		g = r.Rng("read")
		for i := 0; i < r.N(20000, 300000); i++ {
			read(r, g)
		}
		r.Floor("guarded", 100000)
		r.Floor("compared", 50000)
		r.Floor("json_written", 2000)
		r.Floor("json_failed", 200)
		r.Floor("attachments", 2000)
		for _, k := range []string{"ok", "truncated", "garbage", "tail", "mismatch", "empty", "type", "broken"} {
			r.Floor("json_read_"+k, 500)
		}
	})
}
