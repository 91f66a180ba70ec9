//go:build go1.22

// Monitor of C08: requests sized around every configured limit; the verdict of the server is compared with plain
// arithmetic. Where line ends and blanks may or may not count, nothing is claimed.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"strings"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/status"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
	. "github.com/indigo-web/indigo/internal/zzverif/vsrv"
)

type field struct{ name, pre, value, post string }

type request struct {
	method, target, proto string
	fields                []field
	lf                    bool
	body                  string
}

func (q request) wire() string {
	eol := "\r\n"
	if q.lf {
		eol = "\n"
	}
	var sb strings.Builder
	sb.WriteString(q.method + " " + q.target + " " + q.proto + eol)
	for _, f := range q.fields {
		sb.WriteString(f.name + ":" + f.pre + f.value + f.post + eol)
	}
	sb.WriteString(eol + q.body)
	return sb.String()
}

// verdict: 0 must be served, 414 or 431 must be refused, -1 undecided.
func (q request) verdict(cfg config.Config) int {
	unsure := false
	over := func(min, max, limit int) bool {
		if min > limit {
			return true
		}
		if max > limit {
			unsure = true
		}
		return false
	}
	line := len(q.target) + 1 + len(q.proto)
	if over(line, line+1+len(q.method), cfg.URL.BufferSize.Maximal) {
		return 414
	}
	if unsure {
		return -1
	}
	h := cfg.Headers
	refused := len(q.fields) > h.Number.Maximal
	keys, vmin, vmax, te, ce := 0, 0, 0, 0, 0
	for _, f := range q.fields {
		keys += len(f.name)
		refused = refused || len(f.name) > h.MaxKeyLength
		toks := 0
		for _, t := range strings.Split(f.value, ",") {
			if strings.TrimSpace(t) != "" {
				toks++
			}
		}
		switch strings.ToLower(f.name) {
		case "content-length":
			continue
		case "transfer-encoding":
			te += toks
		case "content-encoding":
			ce += toks
		}
		full := len(f.pre) + len(f.value) + len(f.post) + 1
		refused = over(len(f.value), full, h.MaxValueLength) || refused
		vmin, vmax = vmin+len(f.value), vmax+full
	}
	refused = over(keys, keys, h.KeySpace.Maximal) || refused
	refused = over(vmin, vmax, h.ValueSpace.Maximal) || refused
	refused = refused || te > h.MaxEncodingTokens || ce > h.MaxEncodingTokens
	switch {
	case refused:
		return 431
	case unsure:
		return -1
	}
	return 0
}

func near(g *rand.Rand, n int) int {
	k := n + Pick(g, []int{-30, -4, -3, -2, -1, 0, 0, 0, 1, 1, 2, 3, 40})
	if k < 0 {
		k = 0
	}
	return k
}

// name of an exact length that means nothing
func name(g *rand.Rand, n int) string {
	if n < 1 {
		n = 1
	}
	return "X" + Word(g, Alnum+"-", n-1, n-1)
}

// sized builds a request around the chosen limit.
func sized(g *rand.Rand, cfg config.Config, what string) request {
	h := cfg.Headers
	q := request{method: Pick(g, []string{"GET", "POST", "DELETE", "OPTIONS"}), target: "/", proto: "HTTP/1.1", lf: Chance(g, 25)}
	ows := func() string { return Pick(g, []string{"", " ", " ", "  "}) }
	add := func(n, v string) { q.fields = append(q.fields, field{n, ows(), v, Pick(g, []string{"", "", "", " "})}) }
	if Chance(g, 30) {
		add("Host", "x")
	}
	switch what {
	case "url":
		n := near(g, cfg.URL.BufferSize.Maximal-10)
		q.target = "/" + Word(g, Alnum+"/", n, n)
		if Chance(g, 30) && n > 4 {
			q.target = q.target[:n/2] + "?" + q.target[n/2+1:]
		} else if Chance(g, 30) {
			q.target = "/" + strings.Repeat("%41", n/3+1)
		}
	case "number":
		for n := near(g, h.Number.Maximal) - len(q.fields); n > 0; n-- {
			add(name(g, 1+g.Intn(3)), Word(g, Alnum, 0, 3))
		}
		if Chance(g, 30) && len(q.fields) > 0 {
			q.fields[g.Intn(len(q.fields))] = field{"Content-Length", " ", "0", ""}
		}
	case "key":
		add(name(g, near(g, h.MaxKeyLength)), "x")
		if Chance(g, 50) {
			add(name(g, 3), "y")
		}
	case "keyspace":
		for total, want := 0, near(g, h.KeySpace.Maximal); total < want; {
			n := 1 + g.Intn(h.MaxKeyLength)
			if n > want-total {
				n = want - total
			}
			add(name(g, n), "")
			total += n
		}
	case "value":
		add("X-V", Word(g, Alnum, 1, 1)+Word(g, Alnum+" ", 0, 0)+strings.Repeat("v", near(g, h.MaxValueLength)))
		if Chance(g, 50) {
			add("X-W", "y")
		}
	case "valuespace":
		for total, want := 0, near(g, h.ValueSpace.Maximal); total < want; {
			n := 1 + g.Intn(h.MaxValueLength)
			if n > want-total {
				n = want - total
			}
			add("X", strings.Repeat("w", n))
			total += n
		}
	case "encodings", "codings":
		n := near(g, h.MaxEncodingTokens)
		if n > 120 {
			n = 120
		}
		toks := make([]string, n)
		for i := range toks {
			toks[i] = Pick(g, []string{"gzip", "br", "x", "identity"})
		}
		hdr := "Content-Encoding"
		if what == "encodings" {
			hdr = "Transfer-Encoding"
			if n > 0 {
				toks[n-1] = "chunked"
				q.body = "0\r\n\r\n"
			}
		}
		for len(toks) > 0 {
			k := len(toks)
			if Chance(g, 40) {
				k = 1 + g.Intn(len(toks))
			}
			add(hdr, strings.Join(toks[:k], Pick(g, []string{",", ", ", " ,", ",,"})))
			toks = toks[k:]
		}
	case "mixed":
		q.target = "/" + Word(g, Alnum, 0, cfg.URL.BufferSize.Maximal)
		for n := g.Intn(h.Number.Maximal + 2); n > 0; n-- {
			add(name(g, 1+g.Intn(h.MaxKeyLength+1)), Word(g, Alnum, 0, 1+g.Intn(h.MaxValueLength+1)))
		}
	}
	g.Shuffle(len(q.fields), func(i, j int) { q.fields[i], q.fields[j] = q.fields[j], q.fields[i] })
	return q
}

var whats = []string{"url", "number", "key", "keyspace", "value", "valuespace", "encodings", "codings", "mixed"}

func makeConfig(g *rand.Rand, what string) config.Config {
	cfg := config.Default()
	roomy := func() {
		cfg.Headers.Number.Maximal = 3000
		cfg.Headers.MaxKeyLength, cfg.Headers.MaxValueLength = 5000, 20000
		cfg.Headers.KeySpace.Maximal, cfg.Headers.ValueSpace.Maximal = 50000, 200000
		cfg.Headers.MaxEncodingTokens = 200
	}
	u, h := &cfg.URL.BufferSize, &cfg.Headers
	def := func(max int) int { return g.Intn(max + 1) }
	if Chance(g, 15) {
		return cfg // the defaults
	}
	roomy()
	switch what {
	case "url":
		u.Maximal = 12 + g.Intn(Pick(g, []int{10, 100, 3000}))
		u.Default = def(u.Maximal)
	case "number":
		h.Number.Maximal = g.Intn(Pick(g, []int{4, 60}))
		h.Number.Default = def(h.Number.Maximal)
	case "key":
		h.MaxKeyLength = 4 + g.Intn(Pick(g, []int{5, 200}))
	case "keyspace":
		h.MaxKeyLength = 4 + g.Intn(60)
		h.KeySpace.Maximal = 4 + g.Intn(Pick(g, []int{20, 500}))
		h.KeySpace.Default = def(h.KeySpace.Maximal)
	case "value":
		h.MaxValueLength = 5 + g.Intn(Pick(g, []int{10, 500}))
	case "valuespace":
		h.MaxValueLength = 5 + g.Intn(60)
		h.ValueSpace.Maximal = 5 + g.Intn(Pick(g, []int{20, 1000}))
		h.ValueSpace.Default = def(h.ValueSpace.Maximal)
	case "encodings", "codings":
		h.MaxEncodingTokens = 1 + g.Intn(Pick(g, []int{3, 30}))
	case "mixed":
		u.Maximal = 30 + g.Intn(60)
		u.Default = def(u.Maximal)
		h.Number.Maximal = 1 + g.Intn(10)
		h.MaxKeyLength, h.MaxValueLength = 4+g.Intn(20), 6+g.Intn(30)
		h.KeySpace.Maximal, h.ValueSpace.Maximal = 20+g.Intn(100), 20+g.Intn(200)
		h.KeySpace.Default, h.ValueSpace.Default = def(20), def(20)
	}
	return cfg
}

func heads(r *Run, g *rand.Rand, what string, i int) {
	r.Step("%s %d", what, i)
	cfg := makeConfig(g, what)
	var reqs []request
	var stream string
	n := 1 + g.Intn(4)
	expect, code := 0, 0
	for len(reqs) < n && code == 0 {
		q := sized(g, cfg, what)
		v := q.verdict(cfg)
		if v == -1 {
			r.Count("undecided", 1)
			n--
			continue
		}
		reqs = append(reqs, q)
		stream += q.wire()
		if v == 0 {
			expect++
		} else {
			code = v
		}
	}
	if len(reqs) == 0 {
		return
	}
	probe := "GET / HTTP/1.1\r\n\r\n"
	stream += probe
	if code == 0 {
		expect++
	}
	conn := &Conn{In: []byte(stream), LogEvents: true}
	switch g.Intn(5) {
	case 0:
		conn.One = 1
	case 1:
		conn.Cuts = RandomCuts(g, len(stream))
	case 2:
		cfg.TCP.ReadBufferSize = 1 + g.Intn(64)
	}
	c := map[string]any{"stream": Q(stream), "limit": what, "config": fmt.Sprintf("%+v %+v", cfg.URL, cfg.Headers)}
	var handled []Snap
	ok := Serve(r, "serve", c, cfg, conn, Router{Req: func(q *http.Request) *http.Response {
		handled = append(handled, Take(q))
		return q.Respond()
	}})
	if !ok {
		return
	}
	r.Eval(what + stream + fmt.Sprint(cfg.Headers))
	if code != 0 {
		r.Count("refused_"+what, 1)
	}
	r.Count("served_"+what, int64(expect))
	rs, err := ParseAll(conn.Out.Bytes(), nil)
	if err != nil {
		r.Violate("output", c, "%v", err)
		return
	}
	if len(handled) < expect {
		got := 0
		if len(rs) > 0 {
			got = rs[len(rs)-1].Code
		}
		r.Violate("refused-within/"+what, c, "request %d is within all the limits, but was refused with %d", len(handled), got)
		return
	}
	if len(handled) > expect {
		r.Violate("served-over/"+what, c, "request %d exceeds a limit (expected %d), but the server went on", expect, code)
		return
	}
	if code != 0 {
		if len(rs) != expect+1 || rs[expect].Code != code {
			r.Violate("code/"+what, c, "expected %d after %d responses, got %s", code, expect, Q(conn.Out.Bytes()))
		} else if conn.Events[len(conn.Events)-1] != "write" {
			r.Violate("goes-on/"+what, c, "the server goes on after refusing")
		}
	}
	// nothing was cut off
	for k, q := range reqs[:min(len(reqs), expect)] {
		j := 0
		for _, f := range q.fields {
			if strings.EqualFold(f.name, "content-length") {
				continue
			}
			if j >= len(handled[k].Headers) || handled[k].Headers[j] != [2]string{f.name, strings.Trim(f.value, " ")} {
				r.Violate("content/"+what, c, "header %d of request %d differs", j, k)
				return
			}
			j++
		}
		if strings.IndexByte(q.target, '%') == -1 && handled[k].Path != strings.SplitN(q.target, "?", 2)[0] {
			r.Violate("content/url", c, "path %q", handled[k].Path)
			return
		}
	}
	r.Sample(what, c)
}

func bodies(r *Run, g *rand.Rand, i int) {
	r.Step("body %d", i)
	cfg := config.Default()
	max := g.Intn(Pick(g, []int{2, 20, 400, 20000}))
	long := i%500 == 7
	if long {
		max = Pick(g, []int{100, 300, 1 << 10, 1 << 10, 2 << 10, 5 << 10, 17 << 10, 66 << 10}) << 10
		max += g.Intn(1 << 12)
	}
	cfg.Body.MaxSize = uint(max)
	size := near(g, max)
	if Chance(g, 10) {
		size = max * 2
	}
	if Chance(g, 20) && !long {
		cfg.TCP.ReadBufferSize = 1 + g.Intn(64)
	}
	body := Bytes(g, min(size, 1<<20))
	body = append(body, bytes.Repeat(Bytes(g, 1021), (size-len(body))/1021+1)...)[:size]
	chunked := Chance(g, 50)
	huge := !chunked && Chance(g, 10)
	mode := Pick(g, append([]string{"none", "partial3", "one-piece"}, BodyModes...))
	head := "POST / HTTP/1.1\r\n"
	var wire []byte
	switch {
	case chunked:
		wire = append([]byte(head+"Transfer-Encoding: chunked\r\n\r\n"), Chunk(g, body)...)
	case huge:
		size = Pick(g, []int{1 << 31, 1 << 40, 1<<62 + 5, 1 << 33})
		wire = append([]byte(fmt.Sprintf("%sContent-Length: %d\r\n\r\n", head, size)), body...)
	default:
		wire = append([]byte(fmt.Sprintf("%sContent-Length: %d\r\n\r\n", head, size)), body...)
	}
	before := g.Intn(4)
	if long {
		before = g.Intn(2)
	}
	var stream []byte
	for k := 0; k < before; k++ {
		// within the limit, each on its own
		b := Bytes(g, min(1<<20, Pick(g, []int{0, g.Intn(max + 1), max})))
		if Chance(g, 60) {
			trailer := Pick(g, []string{"", "", "Trailer: X-T\r\n"})
			stream = append(append(stream, "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n"+trailer+"\r\n"...), Chunk(g, b)...)
			if trailer != "" {
				stream = append(stream[:len(stream)-2], "X-T: of the body\r\n\r\n"...)
			}
		} else {
			stream = append(fmt.Appendf(stream, "POST / HTTP/1.1\r\nContent-Length: %d\r\n\r\n", len(b)), b...)
		}
	}
	stream = append(append(stream, wire...), "GET /probe HTTP/1.1\r\n\r\n"...)
	conn := &Conn{In: stream}
	k := g.Intn(4)
	if long && k == 0 {
		k = 1
	}
	switch k {
	case 0:
		conn.One = 1
	case 1:
		conn.Cuts = RandomCuts(g, len(stream))
	}
	c := map[string]any{"stream": Q(stream), "MaxSize": max, "size": size, "chunked": chunked, "mode": mode}
	var got []byte
	var err error
	var paths []string
	ok := Serve(r, "body", c, cfg, conn, Router{Req: func(q *http.Request) *http.Response {
		paths = append(paths, strings.Clone(q.Path))
		if len(paths) <= before {
			if _, err := ReadBody(q, Pick(g, append([]string{"none", "one-piece"}, BodyModes...))); err != nil {
				r.Violate("body/earlier", c, "body %d, within the limit, fails: %v", len(paths), err)
			}
		}
		if len(paths) == before+1 {
			got, err = ReadBody(q, mode)
			if len(got) > max {
				r.Violate("body/delivered", c, "%d bytes delivered although at most %d are allowed", len(got), max)
			}
			if err != nil && err.Error() != "" {
				// once failed, it stays so
				again, err2 := q.Body.Retrieve()
				if len(again) > 0 || err2 == nil {
					r.Violate("body/after-error", c, "the body delivers %d bytes after its error", len(again))
				}
			}
		}
		return q.Respond()
	}})
	if !ok {
		return
	}
	r.Eval(fmt.Sprint("body", max, size, chunked, mode, i))
	over := size > max
	full := mode != "none" && mode != "partial3" && mode != "one-piece"
	if over {
		r.Count("bodies_over", 1)
		if long {
			r.Count("long_over", 1)
		}
		var he status.HTTPError
		if full && (!errors.As(err, &he) || he.Code != status.RequestEntityTooLarge) {
			r.Violate("body/not-refused", c, "a body of %d bytes with limit %d: %d bytes read, error %v", size, max, len(got), err)
		}
		if len(paths) > before+1 {
			r.Violate("body/goes-on", c, "the server goes on after a too large body: %q", paths)
		}
	} else {
		r.Count("bodies_within", 1)
		if long {
			r.Count("long_within", 1)
		}
		if err != nil || (full && string(got) != string(body)) {
			r.Violate("body/within", c, "a body of %d bytes with limit %d: %d bytes read, error %v", size, max, len(got), err)
		}
		if len(paths) != before+2 {
			r.Violate("body/probe", c, "the request after the body was not served: %q", paths)
		}
	}
	if _, perr := ParseAll(conn.Out.Bytes(), nil); perr != nil {
		r.Violate("body/output", c, "%v", perr)
	}
}

// chunks: the limit of a single chunk.
func chunks(r *Run, g *rand.Rand, i int) {
	r.Step("chunks %d", i)
	cfg := config.Default()
	max := 1 + g.Intn(Pick(g, []int{2, 20, 400, 20000}))
	if i%100 == 7 {
		max = 100000 + g.Intn(400000) // around and over the default
	}
	cfg.Body.MaxChunkSize = int64(max)
	if Chance(g, 20) {
		cfg.TCP.ReadBufferSize = 1 + g.Intn(64)
	}
	var body, allowed []byte
	var sizes []int
	stream := []byte("POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n")
	over := false
	for n := 1 + g.Intn(4); n > 0; n-- {
		size := 1 + g.Intn(max)
		switch {
		case Chance(g, 30):
			size = max
		case Chance(g, 20):
			size = max + 1 + g.Intn(Pick(g, []int{1, 3, max}))
		}
		sizes = append(sizes, size)
		piece := Bytes(g, size)
		over = over || size > max
		body = append(body, piece...)
		if !over {
			allowed = append(allowed, piece...)
		}
		stream = fmt.Appendf(stream, Pick(g, []string{"%x\r\n%s\r\n", "%X\r\n%s\r\n", "00%x\r\n%s\r\n"}), size, piece)
	}
	stream = append(stream, "0\r\n\r\nGET /probe HTTP/1.1\r\n\r\n"...)
	conn := &Conn{In: stream}
	if Chance(g, 60) {
		conn.Cuts = RandomCuts(g, len(stream))
	}
	mode := Pick(g, BodyModes)
	c := map[string]any{"MaxChunkSize": max, "chunks": sizes, "mode": mode}
	var got []byte
	var err error
	calls := 0
	if !Serve(r, "chunk", c, cfg, conn, Router{Req: func(q *http.Request) *http.Response {
		if calls++; calls == 1 {
			got, err = ReadBody(q, mode)
		}
		return q.Respond()
	}}) {
		return
	}
	r.Eval(fmt.Sprint("chunks", c))
	if over {
		r.Count("chunks_over", 1)
		if err == nil {
			r.Violate("chunk/not-refused", c, "chunks of %v with the limit of %d: %d bytes read without an error", sizes, max, len(got))
		}
		if !bytes.HasPrefix(allowed, got) {
			r.Violate("chunk/delivered", c, "chunks of %v with the limit of %d: %d bytes delivered, %d are before the one over it", sizes, max, len(got), len(allowed))
		}
		if calls != 1 {
			r.Violate("chunk/goes-on", c, "the server goes on after a too large chunk")
		}
		return
	}
	r.Count("chunks_within", 1)
	if err != nil || !bytes.Equal(got, body) || calls != 2 {
		r.Violate("chunk/within", c, "chunks of %v with the limit of %d: %d of %d bytes read, error %v, %d requests handled", sizes, max, len(got), len(body), err, calls)
	}
}

func main() {
	Main("C08", "limit configurations x request sizes around each limit x delivery x position on the connection; distinct by bytes and configuration", func(r *Run) {
		g := r.Rng("heads")
		for i := 0; i < r.N(2500, 60000); i++ {
			for _, w := range whats {
				heads(r, g, w, i)
			}
		}
		g = r.Rng("bodies")
		for i := 0; i < r.N(20000, 500000); i++ {
			bodies(r, g, i)
		}
		g = r.Rng("chunks")
		for i := 0; i < r.N(3000, 80000); i++ {
			chunks(r, g, i)
		}
		r.Floor("chunks_over", 500)
		r.Floor("chunks_within", 500)
		for _, w := range whats {
			r.Floor("refused_"+w, 200)
			r.Floor("served_"+w, 200)
		}
		r.Floor("bodies_over", 2000)
		r.Floor("bodies_within", 2000)
	})
}
