//go:build go1.22

// Monitor of C11: query strings against a reference parser, in any order of accesses, on reused query objects and
// through served requests.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"strings"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/query"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/keyvalue"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
	. "github.com/indigo-web/indigo/internal/zzverif/vsrv"
)

type pair struct{ k, v string }

func unhex(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func decode(s string) (string, bool) {
	var b []byte
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '+':
			b = append(b, ' ')
		case '%':
			if i+2 >= len(s) || unhex(s[i+1]) < 0 || unhex(s[i+2]) < 0 {
				return "", false
			}
			b = append(b, byte(unhex(s[i+1])<<4|unhex(s[i+2])))
			i += 2
		default:
			b = append(b, s[i])
		}
	}
	return string(b), true
}

// reference is written from the statement. Empty parts between two & are dropped (nothing is claimed on them).
func reference(raw string) (ps []pair, ok bool) {
	for _, part := range strings.Split(raw, "&") {
		if part == "" {
			continue
		}
		k, v, has := strings.Cut(part, "=")
		if has && k == "" {
			return nil, false
		}
		key, ok := decode(k)
		if !ok {
			return nil, false
		}
		val := "1"
		if has {
			if val, ok = decode(v); !ok {
				return nil, false
			}
		}
		ps = append(ps, pair{key, val})
	}
	return ps, true
}

// drop the pairs of empty parts
func significant(in []keyvalue.Pair, emptyParts bool) (out []pair) {
	for _, p := range in {
		if emptyParts && p.Key == "" && p.Value == "1" {
			continue
		}
		out = append(out, pair{strings.Clone(p.Key), strings.Clone(p.Value)})
	}
	return out
}

func fold(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range []byte(a) {
		x, y := a[i], b[i]
		if x >= 'A' && x <= 'Z' {
			x |= 0x20
		}
		if y >= 'A' && y <= 'Z' {
			y |= 0x20
		}
		if x != y {
			return false
		}
	}
	return true
}

func same(a, b []pair) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// accesses performs random accesses and checks each of them.
func accesses(r *Run, g *rand.Rand, q *query.Query, raw string, c any) bool {
	want, valid := reference(raw)
	emptyParts := raw != "" && strings.Contains("&"+raw+"&", "&&")
	var first error
	for n := 1 + g.Intn(5); n > 0; n-- {
		r.Count("accesses", 1)
		var err error
		switch g.Intn(4) {
		case 0:
			var p query.Params
			if p, err = q.Unwrap(); err == nil {
				if !valid {
					r.Violate("accepted", c, "the invalid query gave %v", p.Unwrap())
					return false
				}
				if got := significant(p.Unwrap(), emptyParts); !same(got, want) {
					r.Violate("pairs", c, "parsed as %q instead of %q", got, want)
					return false
				}
			} else if p != nil {
				r.Violate("params-with-error", c, "parameters returned together with %v", err)
			}
		case 1:
			if got := string(q.Raw()); got != raw {
				r.Violate("raw", c, "raw query is %q", got)
				return false
			}
			continue
		default:
			key := Word(g, "ab&=+% ", 0, 3)
			if len(want) > 0 && Chance(g, 80) {
				key = RandCase(g, Pick(g, want).k)
			}
			if key == "" && emptyParts {
				continue
			}
			exp, found := "", false
			for _, p := range want {
				if fold(p.k, key) {
					exp, found = p.v, true
					break
				}
			}
			var got string
			got, err = q.Get(key)
			switch {
			case !valid && (err == nil || got != "" || errors.Is(err, query.ErrNoSuchKey)):
				r.Violate("get-accepted", c, "the invalid query gave %q, %v for %q", got, err, key)
				return false
			case valid && found && (err != nil || got != exp):
				r.Violate("get", c, "Get(%q) = %q, %v instead of %q", key, got, err, exp)
				return false
			case valid && !found && (!errors.Is(err, query.ErrNoSuchKey) || got != ""):
				r.Violate("get-absent", c, "Get(%q) of an absent key = %q, %v", key, got, err)
				return false
			}
			if valid {
				err = nil
			}
		}
		if valid {
			if err != nil {
				r.Violate("refused", c, "the valid query gave the error %v", err)
				return false
			}
			continue
		}
		var he status.HTTPError
		if !errors.As(err, &he) || he.Code != status.BadRequest {
			r.Violate("error-kind", c, "the error of an invalid query is %v", err)
		}
		if first != nil && err != first {
			r.Violate("error-changes", c, "the error was %v and is now %v", first, err)
			return false
		}
		first = err
	}
	return true
}

// history: one query object set to several strings
func history(r *Run, g *rand.Rand, raws []string) {
	c := map[string]any{"queries": raws}
	r.Guard("panic", c, func() {
		q := query.New(keyvalue.NewPreAlloc(g.Intn(4)))
		if !accesses(r, g, q, "", c) {
			return
		}
		for _, raw := range raws {
			// the memory around belongs to someone else
			mem := []byte("<<<<" + raw + ">>>>")
			b := mem[4 : 4+len(raw)]
			if len(raw) == 0 && Chance(g, 50) {
				b = nil
			}
			q.Set(b)
			if !Chance(g, 85) {
				continue
			}
			if !accesses(r, g, q, raw, c) {
				return
			}
			if !bytes.Equal(mem, []byte("<<<<"+raw+">>>>")) {
				r.Violate("memory", c, "the memory of the raw query was changed to %q", mem)
				return
			}
			if _, ok := reference(raw); ok {
				r.Count("valid", 1)
			} else {
				r.Count("invalid", 1)
			}
		}
	})
	r.Eval(strings.Join(raws, " "))
}

func genQuery(g *rand.Rand, long bool) string {
	var parts []string
	count := g.Intn(Pick(g, []int{2, 4, 12}))
	if long {
		count = g.Intn(Pick(g, []int{3, 200, 2000}))
	}
	for n := count; n > 0; n-- {
		item := func(min int) string {
			var sb strings.Builder
			size := g.Intn(5)
			if long && g.Intn(count) < 2 {
				size = g.Intn(Pick(g, []int{500, 9000}))
			}
			for k := min + size; k > 0; k-- {
				switch g.Intn(8) {
				case 0:
					sb.WriteString(Escape(g, byte(g.Intn(256))))
				case 1:
					sb.WriteString(Escape(g, "&=+% \x00\n"[g.Intn(7)]))
				case 2:
					sb.WriteByte('+')
				case 3:
					sb.WriteByte(Pick(g, []byte("/?#:@!$'()*,;-._~\"<>[]^`{|}\x80\xff")))
				default:
					sb.WriteByte(Pick(g, []byte("abcAB01")))
				}
			}
			return sb.String()
		}
		p := item(1)
		if Chance(g, 75) {
			p += "=" + item(0)
			if Chance(g, 10) {
				p += "=" + item(0)
			}
		}
		parts = append(parts, p)
	}
	s := strings.Join(parts, "&")
	if Chance(g, 25) {
		i := g.Intn(len(s) + 1)
		s = s[:i] + Pick(g, []string{"%", "%1", "%zz", "&=x", "=", "&&", "&", "%%", "%4", "==", "%g0", "%0g"}) + s[i:]
	}
	return s
}

func served(r *Run, g *rand.Rand, i int) {
	var stream []byte
	var raws []string
	for n := 1 + g.Intn(4); n > 0; n-- {
		raw := strings.Map(func(c rune) rune {
			if c == ' ' || c == '\n' || c == '\r' {
				return 'x'
			}
			return c
		}, genQuery(g, i%100 == 0))
		if len(raw) > 60000 {
			raw = ""
		}
		raws = append(raws, raw)
		target := "/p"
		if raw != "" || Chance(g, 50) {
			target += "?" + raw
		}
		stream = append(stream, "GET "+target+" HTTP/1.1\r\n\r\n"...)
	}
	conn := &Conn{In: stream}
	if Chance(g, 50) {
		conn.Cuts = RandomCuts(g, len(stream))
	}
	k := 0
	c := map[string]any{"stream": Q(stream)}
	ok := Serve(r, "serve", c, config.Default(), conn, Router{Req: func(q *http.Request) *http.Response {
		if k < len(raws) && string(q.Query.Raw()) != raws[k] {
			r.Violate("served-raw", c, "raw query %q instead of %q", q.Query.Raw(), raws[k])
		} else if k < len(raws) && Chance(g, 80) {
			accesses(r, g, q.Query, raws[k], c)
		}
		k++
		return q.Respond()
	}})
	if ok && k != len(raws) {
		r.Violate("served", c, "%d of %d requests handled", k, len(raws))
	}
	r.Count("served", int64(k))
	r.Eval("served" + string(stream))
}

func main() {
	Main("C11", "all queries up to length 6 (7) over a hostile alphabet, random queries; each with random access sequences on fresh and reused objects", func(r *Run) {
		g := r.Rng("small")
		Strings("a=&+%1", r.N(6, 8), func(s string) {
			r.Step("small %q", s)
			history(r, g, []string{s})
		})
		g = r.Rng("random")
		for i := 0; i < r.N(60000, 2000000); i++ {
			var raws []string
			for n := 1 + g.Intn(3); n > 0; n-- {
				raws = append(raws, genQuery(g, i%300 == 0))
			}
			r.Step("random %q", raws)
			history(r, g, raws)
			if i < 3 {
				r.Sample("random", raws)
			}
		}
		// every byte, encoded and not
		for b := 0; b < 256; b++ {
			for _, f := range []string{"%s=v", "k=%s", "%s", "a=b&x%sy=z", "a=x%sy&c"} {
				history(r, g, []string{fmt.Sprintf(f, fmt.Sprintf("%%%02x", b)), fmt.Sprintf(f, fmt.Sprintf("%%%02X", b)), fmt.Sprintf(f, string([]byte{byte(b)}))})
			}
		}
		for i := 0; i < r.N(5000, 100000); i++ {
			served(r, g, i)
		}
		r.Floor("valid", 20000)
		r.Floor("invalid", 20000)
		r.Floor("accesses", 100000)
		r.Floor("served", 5000)
	})
}
