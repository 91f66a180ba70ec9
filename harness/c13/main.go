//go:build go1.22

// Monitor of C13: cookies sent by a client are read back in a handler, cookies set by a handler are read back by a
// client.
package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	nethttp "net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/http/status"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
	. "github.com/indigo-web/indigo/internal/zzverif/vsrv"
)

const (
	nameChars  = Alnum + "!#$%&'*+-.^_`|~"
	valueChars = Alnum + "!#$%&'()*+-./:<=>?@[]^_`{|}~,\"\\"
)

type pair struct{ k, v string }

func genValue(g *rand.Rand) string {
	n := g.Intn(Pick(g, []int{1, 4, 20}))
	b := make([]byte, n)
	for i := range b {
		b[i] = valueChars[g.Intn(len(valueChars))]
		if i > 0 && i < n-1 && Chance(g, 10) {
			b[i] = ' '
		}
		if Chance(g, 4) {
			b[i] = byte(0x80 + g.Intn(128))
		}
	}
	return string(b)
}

func genPairs(g *rand.Rand, max int) (ps []pair) {
	for n := g.Intn(max); n > 0; n-- {
		k := Word(g, nameChars, 1, 8)
		if len(ps) > 0 && Chance(g, 15) {
			k = RandCase(g, Pick(g, ps).k)
		}
		ps = append(ps, pair{k, genValue(g)})
	}
	return ps
}

// manyPairs are a lot of cookies, long ones among them
func manyPairs(g *rand.Rand) (ps []pair) {
	for n := g.Intn(Pick(g, []int{60, 300})); n > 0; n-- {
		p := pair{Word(g, nameChars, 1, Pick(g, []int{8, 8, 8, 300})), genValue(g)}
		if Chance(g, 5) {
			p.v = Word(g, Alnum+"=%", 1, Pick(g, []int{600, 9000}))
		}
		ps = append(ps, p)
	}
	return ps
}

func render(g *rand.Rand, ps []pair) string {
	var sb strings.Builder
	for i, p := range ps {
		if i > 0 {
			sb.WriteString(Pick(g, []string{"; ", "; ", "; ", ";"}))
		}
		sb.WriteString(p.k + "=" + p.v)
	}
	if len(ps) > 0 && Chance(g, 10) {
		sb.WriteString(";")
	}
	return sb.String()
}

func jarPairs(jar cookie.Jar) (ps []pair) {
	for _, p := range jar.Unwrap() {
		ps = append(ps, pair{strings.Clone(p.Key), strings.Clone(p.Value)})
	}
	return ps
}

func checkJar(r *Run, g *rand.Rand, c any, jar cookie.Jar, err error, want []pair, valid bool, where string) bool {
	if !valid {
		r.Count("malformed", 1)
		if !errors.Is(err, cookie.ErrBadCookie) {
			r.Violate(where+"/malformed-accepted", c, "the malformed cookies gave %v, error %v", jar, err)
			return false
		}
		return true
	}
	r.Count("wellformed", 1)
	if err != nil {
		r.Violate(where+"/refused", c, "%q gave the error %v", want, err)
		return false
	}
	got := jarPairs(jar)
	if len(got) != len(want) {
		r.Violate(where+"/pairs", c, "got %q, want %q", got, want)
		return false
	}
	for i := range got {
		if got[i] != want[i] {
			r.Violate(where+"/pairs", c, "got %q, want %q", got, want)
			return false
		}
	}
	if len(want) > 0 {
		k := Pick(g, want).k
		first := ""
		for _, p := range want {
			if strings.EqualFold(p.k, k) {
				first = p.v
				break
			}
		}
		if v := jar.Value(k); v != first {
			r.Violate(where+"/lookup", c, "cookie %q is %q, want %q", k, v, first)
			return false
		}
	}
	return true
}

// malform breaks a Cookie header value in one of the ways the statement names
func malform(g *rand.Rand, ps []pair) string {
	bad := Pick(g, []string{"=v", "=", "flag", "flag", "x y"})
	i := g.Intn(len(ps) + 1)
	var parts []string
	for _, p := range ps[:i] {
		parts = append(parts, p.k+"="+p.v)
	}
	parts = append(parts, bad)
	for _, p := range ps[i:] {
		parts = append(parts, p.k+"="+p.v)
	}
	return strings.Join(parts, Pick(g, []string{"; ", ";"}))
}

func direct(r *Run, g *rand.Rand, i int) {
	ps := genPairs(g, 7)
	if i%400 == 0 {
		ps = manyPairs(g)
		r.Count("many", 1)
	}
	valid := Chance(g, 70)
	data := render(g, ps)
	if !valid {
		data = malform(g, ps)
	}
	c := map[string]any{"cookie": Q(data)}
	r.Step("direct %q", data)
	r.Guard("panic", c, func() {
		jar := cookie.NewJarPreAlloc(g.Intn(4))
		err := cookie.Parse(jar, data)
		checkJar(r, g, c, jar, err, ps, valid, "parse")
	})
	r.Eval("d" + data)
}

// received: several Cookie headers, several requests per connection, several calls
func received(r *Run, g *rand.Rand, i int) {
	r.Step("received %d", i)
	type one struct {
		want  []pair
		valid bool
	}
	var all []one
	large := i%100 == 0
	var stream strings.Builder
	for n := 1 + g.Intn(3); n > 0; n-- {
		o := one{valid: true}
		stream.WriteString("GET / HTTP/1.1\r\n")
		for k := g.Intn(4); k > 0; k-- {
			if Chance(g, 30) {
				stream.WriteString("X-A: b=c\r\n")
			}
			ps := genPairs(g, 5)
			if large {
				ps = manyPairs(g)
			}
			v := render(g, ps)
			if Chance(g, 12) {
				v, o.valid = malform(g, ps), false
			}
			o.want = append(o.want, ps...)
			stream.WriteString(RandCase(g, "Cookie") + ":" + Pick(g, []string{"", " "}) + v + "\r\n")
		}
		stream.WriteString("\r\n")
		all = append(all, o)
	}
	conn := &Conn{In: []byte(stream.String())}
	if Chance(g, 50) {
		conn.Cuts = RandomCuts(g, len(conn.In))
	}
	c := map[string]any{"stream": Q(conn.In)}
	k := 0
	cfg := config.Default()
	cfg.Headers.CookiesPreAllocate = 1 + g.Intn(6)
	if large {
		cfg.Headers.MaxValueLength, cfg.Headers.ValueSpace.Maximal = 4<<20, 16<<20
		r.Count("many", 1)
	}
	ok := Serve(r, "serve", c, cfg, conn, Router{Req: func(q *http.Request) *http.Response {
		if k < len(all) {
			for n := 1 + g.Intn(2); n > 0; n-- {
				jar, err := q.Cookies()
				if err != nil && jar != nil {
					r.Violate("jar-with-error", c, "a jar is returned together with %v", err)
				}
				if !checkJar(r, g, c, jar, err, all[k].want, all[k].valid, "request") {
					break
				}
			}
		}
		k++
		return q.Respond()
	}})
	if ok && k != len(all) {
		r.Violate("served", c, "%d of %d requests handled", k, len(all))
	}
	r.Eval("r" + stream.String())
}

// genCookie returns a cookie and what it has to be, written down independently of the builder.
func genCookie(g *rand.Rand) (built, want cookie.Cookie) {
	w := cookie.Cookie{Name: Word(g, nameChars, 1, 8), Value: genValue(g)}
	if Chance(g, 40) {
		w.Path = "/" + Word(g, Alnum+"/.-", 0, 10)
	}
	if Chance(g, 40) {
		w.Domain = Word(g, Lower+".-", 1, 12)
	}
	if Chance(g, 40) {
		t := time.Unix(g.Int63n(4_000_000_000), 0)
		w.Expires = t.In(time.FixedZone("X", (g.Intn(27)-13)*3600+g.Intn(2)*1800))
	}
	if Chance(g, 40) {
		w.MaxAge = Pick(g, []int{-1, -100, 1, 3600, 1 << 31, g.Intn(1 << 20), 0})
	}
	if Chance(g, 40) {
		w.SameSite = Pick(g, []string{"Lax", "None", "Strict", ""})
	}
	w.Secure, w.HttpOnly = Chance(g, 40), Chance(g, 40)
	if Chance(g, 30) {
		return w, w
	}
	b := cookie.Build(w.Name, w.Value)
	if Chance(g, 20) {
		// the last call wins
		b = b.Path("/other").Domain("other").MaxAge(7).SameSite(cookie.SameSiteLax).Secure(!w.Secure).HttpOnly(!w.HttpOnly).Expires(time.Unix(1, 0))
		b = b.Path("").Domain("").MaxAge(0).SameSite("").Expires(time.Time{})
	}
	var steps []func()
	step := func(set bool, f func()) {
		if set || Chance(g, 20) {
			steps = append(steps, f)
		}
	}
	step(w.Path != "", func() { b = b.Path(w.Path) })
	step(w.Domain != "", func() { b = b.Domain(w.Domain) })
	step(!w.Expires.IsZero(), func() { b = b.Expires(w.Expires) })
	step(w.MaxAge != 0, func() { b = b.MaxAge(w.MaxAge) })
	step(w.SameSite != "", func() {
		b = b.SameSite(map[string]string{"Lax": cookie.SameSiteLax, "None": cookie.SameSiteNone, "Strict": cookie.SameSiteStrict}[w.SameSite])
	})
	step(true, func() { b = b.Secure(w.Secure) })
	step(true, func() { b = b.HttpOnly(w.HttpOnly) })
	g.Shuffle(len(steps), func(i, j int) { steps[i], steps[j] = steps[j], steps[i] })
	for _, f := range steps {
		f()
	}
	return b.Cookie(), w
}

var kinds = []string{"empty", "text", "error", "204", "304", "404", "sized", "unsized", "file", "json", "headers"}

// set: cookies of responses
func set(r *Run, g *rand.Rand, file string, i int) {
	r.Step("set %d", i)
	var stream string
	var methods, ks []string
	var all, built [][]cookie.Cookie
	for n := 1 + g.Intn(3); n > 0; n-- {
		m := Pick(g, []string{"GET", "GET", "HEAD", "POST"})
		stream += m + " / HTTP/1.1\r\n\r\n"
		methods, ks = append(methods, m), append(ks, Pick(g, kinds))
		var cs, ws []cookie.Cookie
		n := g.Intn(4)
		if i%100 == 0 {
			n = g.Intn(150)
		}
		for k := n; k > 0; k-- {
			b, w := genCookie(g)
			if i%100 == 0 && Chance(g, 10) {
				b.Value = Word(g, Alnum, 1, 9000)
				w.Value = b.Value
			}
			cs, ws = append(cs, b), append(ws, w)
		}
		all, built = append(all, ws), append(built, cs)
	}
	conn := &Conn{In: []byte(stream)}
	cfg := config.Default()
	cfg.HTTP.ResponseBuffSize = g.Intn(300)
	c := map[string]any{"methods": methods, "kinds": ks, "cookies": fmt.Sprintf("%+v", all)}
	k := 0
	ok := Serve(r, "set", c, cfg, conn, Router{Req: func(q *http.Request) *http.Response {
		resp := q.Respond()
		if k >= len(all) {
			return resp
		}
		cs := append([]cookie.Cookie(nil), built[k]...)
		cut := g.Intn(len(cs) + 1)
		resp.Cookie(cs[:cut]...)
		switch ks[k] {
		case "text":
			resp.String("text")
		case "error":
			resp.Error(status.ErrForbidden)
		case "204", "304", "404":
			n, _ := strconv.Atoi(ks[k])
			resp.Code(status.Code(n))
		case "sized":
			resp.Attachment(strings.NewReader("12345"), 5)
		case "unsized":
			resp.Attachment(strings.NewReader("12345"), 0)
		case "file":
			resp.File(file)
		case "json":
			resp.JSON([]int{1})
		case "headers":
			resp.Header("X-A", "b").Header("Set-Cookie2", "x")
		}
		resp.Cookie(cs[cut:]...)
		k++
		return resp
	}})
	if !ok {
		return
	}
	r.Eval("s" + fmt.Sprint(c))
	rs, err := ParseAll(conn.Out.Bytes(), methods)
	if err != nil || len(rs) != len(all) {
		r.Violate("set/output", c, "%d responses, %v", len(rs), err)
		return
	}
	br := bufio.NewReader(bytes.NewReader(conn.Out.Bytes()))
	for j, p := range rs {
		got := p.Get("Set-Cookie")
		if len(got) != len(all[j]) {
			r.Violate("set/number", c, "response %d (%s %s) has %d Set-Cookie headers instead of %d: %q", j, methods[j], ks[j], len(got), len(all[j]), got)
			return
		}
		for n, v := range got {
			if !compare(r, c, v, all[j][n]) {
				return
			}
		}
		// a second client
		hr, err := nethttp.ReadResponse(br, &nethttp.Request{Method: methods[j]})
		if err != nil {
			r.Violate("set/net-http", c, "%v", err)
			return
		}
		if n := len(hr.Header["Set-Cookie"]); n != len(all[j]) {
			r.Violate("set/net-http", c, "net/http sees %d cookies of %d", n, len(all[j]))
		}
		_, _ = new(bytes.Buffer).ReadFrom(hr.Body)
	}
}

func compare(r *Run, c any, line string, k cookie.Cookie) bool {
	r.Count("cookies_set", 1)
	fail := func(kind, format string, args ...any) bool {
		r.Violate("set/"+kind, c, "Set-Cookie: "+line+": "+format, args...)
		return false
	}
	parts := strings.Split(line, ";")
	name, value, has := strings.Cut(parts[0], "=")
	if !has || name != k.Name || value != k.Value {
		return fail("pair", "want %q=%q", k.Name, k.Value)
	}
	attrs := map[string]string{}
	for _, p := range parts[1:] {
		n, v, has := strings.Cut(strings.TrimLeft(p, " "), "=")
		n = strings.ToLower(n)
		if !has {
			v = "\x00"
		}
		if _, dup := attrs[n]; dup {
			return fail("duplicate", "attribute %q twice", n)
		}
		attrs[n] = v
	}
	want := map[string]string{}
	if k.Path != "" {
		want["path"] = k.Path
	}
	if k.Domain != "" {
		want["domain"] = k.Domain
	}
	if k.MaxAge > 0 {
		want["max-age"] = strconv.Itoa(k.MaxAge)
	} else if k.MaxAge < 0 {
		want["max-age"] = "0"
	}
	if k.SameSite != "" {
		want["samesite"] = k.SameSite
	}
	if k.Secure {
		want["secure"] = "\x00"
	}
	if k.HttpOnly {
		want["httponly"] = "\x00"
	}
	if v, ok := attrs["maxage"]; ok && attrs["max-age"] == "" {
		r.Violate("Max-Age spelled MaxAge", c, "Set-Cookie: %s", line)
		delete(attrs, "maxage")
		attrs["max-age"] = v
	}
	if e, ok := attrs["expires"]; ok != !k.Expires.IsZero() {
		return fail("expires", "want %v", k.Expires)
	} else if ok {
		t, err := nethttp.ParseTime(e)
		if err != nil || !strings.HasSuffix(e, " GMT") || t.Unix() != k.Expires.Unix() {
			return fail("expires", "want %v (%v)", k.Expires.UTC(), err)
		}
		delete(attrs, "expires")
		r.Count("expires", 1)
	}
	for n, v := range want {
		if got, ok := attrs[n]; !ok || got != v {
			return fail("attribute "+n, "want %q, got %q", v, got)
		}
		delete(attrs, n)
	}
	for n := range attrs {
		return fail("surplus", "attribute %q was not set", n)
	}
	return true
}

func main() {
	Main("C13", "cookie lists and header splits, malformed ones, all attribute combinations on all response kinds; distinct by bytes", func(r *Run) {
		file := filepath.Join(r.Scratch, "f.txt")
		if err := os.WriteFile(file, []byte("content"), 0o644); err != nil {
			r.Inconclusive("%v", err)
			return
		}
		g := r.Rng("cookies")
		for i := 0; i < r.N(40000, 1000000); i++ {
			direct(r, g, i)
		}
		for i := 0; i < r.N(8000, 200000); i++ {
			received(r, g, i)
			set(r, g, file, i)
		}
		r.Floor("wellformed", 10000)
		r.Floor("malformed", 5000)
		r.Floor("cookies_set", 5000)
		r.Floor("expires", 1000)
		r.Floor("many", 100)
	})
}
