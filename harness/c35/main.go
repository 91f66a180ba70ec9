//go:build go1.22

// Monitor of C35: header values composed of a value and parameters; what the accessors give is compared with what the value
// was composed of. Purity is observed too: strings in read-only and guarded memory, repeated and concurrent calls.
package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"

	"github.com/indigo-web/indigo/http/headers"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
)

const (
	token = Alnum + "!#$%&'*+-.^_`|~"
	value = token + "/,:@?()<>[]{}=\""
)

type param struct{ key, val string }

type header struct {
	val    string
	params []param
	text   string
}

func gen(g *rand.Rand, long bool) (h header) {
	h.val = Word(g, value+" ", 0, Pick(g, []int{0, 1, 12, 40}))
	if Chance(g, 30) {
		h.val = Pick(g, []string{"text/html", "*/*", "gzip", "en-US", "charset=none", "q=0.3", "a=b"})
	}
	h.text = h.val
	used := map[string]bool{}
	count := g.Intn(Pick(g, []int{1, 3, 6}))
	if long {
		count = g.Intn(Pick(g, []int{40, 200}))
		if Chance(g, 50) {
			h.val += Word(g, value, 0, 9000)
			h.text = h.val
		}
	}
	for n := count; n > 0; n-- {
		p := param{Word(g, token, 1, Pick(g, []int{1, 3, 10})), Word(g, value, 0, Pick(g, []int{0, 1, 6, 30}))}
		if Chance(g, 15) {
			// spaces inside of values belong to them
			p.val = "\"" + Word(g, value+"   \t", 0, 12) + "\""
		}
		if long && Chance(g, 20) {
			p.val = Word(g, value, 0, Pick(g, []int{300, 3000, 70000}))
		} else if long && Chance(g, 5) {
			p.key = Word(g, token, 200, 3000)
		}
		switch g.Intn(8 + 20*len(used)) {
		case 0, 1:
			p.key = "charset"
			p.val = Pick(g, []string{"utf-8", "utf8", "cp1251", "", "q=0.1", "iso-8859-1"})
		case 2, 3:
			p.key = "q"
			p.val = Pick(g, []string{"0.5", "0.0", "0.9", "0.1", "0.35", "1", "1.0", "0", "0.", "0.a", "0.5x", "x", "", "0.-5", "0.007", "0.99999999999999999999"})
		case 4:
			p.key = Pick(g, []string{"charse", "charsets", "xcharset", "Charset", "qq", "Q", "aq", "boundary"})
		}
		if used[p.key] {
			continue
		}
		used[p.key] = true
		h.params = append(h.params, p)
		h.text += ";" + Pick(g, []string{"", "", " ", "\t", "  "}) + p.key + "=" + p.val
	}
	return h
}

// quality of the value: the digits after "0.", 9 if there is nothing to understand.
func (h header) quality() int {
	for _, p := range h.params {
		if p.key == "q" && strings.HasPrefix(p.val, "0.") {
			d := p.val[2:]
			if d == "" || len(d) > 9 {
				return 9
			}
			n := 0
			for _, c := range d {
				if c < '0' || c > '9' {
					return 9
				}
				n = n*10 + int(c-'0')
			}
			return n
		}
	}
	return 9
}

func (h header) param(key, or string) string {
	for _, p := range h.params {
		if p.key == key {
			return p.val
		}
	}
	return or
}

func check(r *Run, g *rand.Rand, h header) {
	r.Step("value %q", h.text)
	back := []byte(h.text)
	text := string(back)
	r.Guard("accessors", h.text, func() {
		bad := func(what, got, want any) {
			r.Violate(fmt.Sprint(what), h.text, "%v of %q is %q, expected %q", what, h.text, got, want)
		}
		if got := headers.ValueOf(text); got != h.val {
			bad("ValueOf", got, h.val)
		}
		if got, want := headers.CharsetOf(text), h.param("charset", "iso-8859-1"); got != want {
			bad("CharsetOf", got, want)
		}
		signed := false
		for _, p := range h.params {
			signed = signed || p.key == "q" && strings.ContainsAny(p.val, "+-")
		}
		if got, want := headers.QualityOf(text), h.quality(); got != want && !signed {
			bad("QualityOf", fmt.Sprint(got), fmt.Sprint(want))
		}
		keys := []string{Word(g, token, 1, 3), "charset", "q", "boundary", "x"}
		for _, p := range h.params {
			keys = append(keys, p.key)
			r.Count("params", 1)
		}
		for _, k := range keys {
			or := Word(g, value+";", 0, 4)
			if got, want := headers.ParamOfOr(text, k, or), h.param(k, or); got != want {
				bad("ParamOfOr "+k, got, want)
			}
			if got, want := headers.ParamOf(text, k), h.param(k, ""); got != want {
				bad("ParamOf "+k, got, want)
			}
			if h.param(k, "\x00") == "\x00" {
				r.Count("absent", 1)
			}
		}
	})
	if text != string(back) {
		r.Violate("modified", h.text, "the value was modified: %q", text)
	}
	r.Eval(h.text)
	r.Count("values", 1)
}

func main() {
	Main("C35", "all texts of up to 6 bytes over the significant bytes (no panic, consistency), values composed of random parameters", func(r *Run) {
		// arbitrary text never panics and is consistent
		Strings("a;= q0.", r.N(6, 7), func(s string) {
			r.Guard("any", s, func() {
				v := headers.ValueOf(s)
				if i := strings.IndexByte(s, ';'); (i < 0 && v != s) || (i >= 0 && v != s[:i]) {
					r.Violate("ValueOf", s, "ValueOf(%q) is %q", s, v)
				}
				if p, q := headers.ParamOf(s, "a"), headers.ParamOfOr(s, "a", "?"); p != q && !(p == "" && q == "?") {
					r.Violate("ParamOf", s, "ParamOf(%q) is %q, ParamOfOr is %q", s, p, q)
				}
				if !strings.Contains(s, ";") && (headers.QualityOf(s) != 9 || headers.ParamOfOr(s, "a", "?") != "?" || headers.CharsetOf(s) != headers.DefaultEncoding) {
					r.Violate("defaults", s, "%q has no parameters, but some are found", s)
				}
			})
			r.Eval("any" + s)
		})
		g := r.Rng("values")
		for i := 0; i < r.N(300000, 4000000); i++ {
			check(r, g, gen(g, false))
		}
		for i := 0; i < r.N(600, 10000); i++ {
			check(r, g, gen(g, true))
		}
		var wg sync.WaitGroup
		for k := 0; k < 4; k++ {
			g := r.Rng(fmt.Sprint("concurrent", k))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < r.N(5000, 50000); i++ {
					check(r, g, gen(g, i%50 == 0))
				}
			}()
		}
		wg.Wait()
		r.Floor("values", 100000)
		r.Floor("params", 100000)
		r.Floor("absent", 100000)
	})
}
