//go:build go1.22

// Monitor of C10: percent-decoding against a reference written from the statement.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"runtime"
	"sync"

	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/hexconv"
	"github.com/indigo-web/indigo/internal/uridecode"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
)

func hexval(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func ref(src []byte) ([]byte, bool) {
	out := make([]byte, 0, len(src))
	for i := 0; i < len(src); i++ {
		if src[i] != '%' {
			out = append(out, src[i])
			continue
		}
		if i+2 >= len(src) || hexval(src[i+1]) < 0 || hexval(src[i+2]) < 0 {
			return nil, false
		}
		out = append(out, byte(hexval(src[i+1])<<4|hexval(src[i+2])))
		i += 2
	}
	return out, true
}

const canary = 0xA5

type shape struct {
	name string
	buf  func(src []byte) []byte
}

var shapes = []shape{
	{"nil", func([]byte) []byte { return nil }},
	{"cap1", func([]byte) []byte { return make([]byte, 0, 1) }},
	{"cap-1", func(s []byte) []byte { return make([]byte, 0, max(len(s)-1, 0)) }},
	{"exact", func(s []byte) []byte { return make([]byte, 0, len(s)) }},
	{"large", func(s []byte) []byte { return dirty(4*len(s) + 64) }},
	{"reused", func(s []byte) []byte { return reused[:0] }},
	{"in-place", func(s []byte) []byte { return s[:0] }},
}

// reused is a destination kept across calls, with whatever earlier calls left in it
var reused = dirty(1 << 15)

func dirty(n int) []byte { return bytes.Repeat([]byte{'%'}, n)[:0] }

// held are earlier results, which later calls must not change
var held []struct{ got, want []byte }

func hold(r *Run, got, want []byte) {
	held = append(held, struct{ got, want []byte }{got, append([]byte(nil), want...)})
	if len(held) < 64 {
		return
	}
	for _, h := range held {
		if !bytes.Equal(h.got, h.want) {
			r.Violate("result-overwritten", Q(h.want), "a result %s became %s after later calls", Q(h.want), Q(h.got))
		}
	}
	r.Count("results_held", int64(len(held)))
	held = held[:0]
}

func check(r *Run, s string, all bool) {
	want, valid := ref([]byte(s))
	for _, sh := range shapes {
		if !all && sh.name != "nil" && sh.name != "in-place" {
			continue
		}
		// the source is surrounded by canaries, within the same allocation
		mem := make([]byte, len(s)+16)
		for i := range mem {
			mem[i] = canary
		}
		src := mem[8 : 8+len(s) : 8+len(s)]
		copy(src, s)
		buf := sh.buf(src)
		c := map[string]any{"src": Q(s), "buffer": sh.name}
		var got []byte
		var err error
		if !r.Guard("decode", c, func() { got, err = uridecode.Decode(src, buf) }) {
			continue
		}
		r.Count("decodes", 1)
		switch {
		case valid && err != nil:
			r.Violate("valid-rejected", c, "Decode(%s) failed: %v", Q(s), err)
		case valid && !bytes.Equal(got, want):
			r.Violate("wrong-result", c, "Decode(%s, %s) = %s, want %s", Q(s), sh.name, Q(got), Q(want))
		case !valid && err == nil:
			r.Violate("invalid-accepted", c, "Decode(%s) = %s, want an error", Q(s), Q(got))
		case !valid && !errors.Is(err, status.ErrURIDecoding):
			r.Violate("wrong-error", c, "Decode(%s) error is %v", Q(s), err)
		}
		if sh.name != "in-place" && string(mem[8:8+len(s)]) != s {
			r.Violate("source-modified", c, "the source %s became %s", Q(s), Q(mem[8:8+len(s)]))
		}
		for i := 0; i < 8; i++ {
			if mem[i] != canary || mem[8+len(s)+i] != canary {
				r.Violate("overrun", c, "memory around the source was written: % x", mem)
				break
			}
		}
		if valid && err == nil && sh.name != "reused" {
			hold(r, got, got)
		}
		if valid {
			r.Count("valid", 1)
		} else {
			r.Count("rejected", 1)
		}
	}
	key := ""
	if bytes.IndexByte([]byte(s), '%') >= 0 {
		key = s
	}
	r.Eval(key)
}

func main() {
	Main("C10", "all 65536 two-byte escapes alone and embedded, all strings up to length 5 over a hostile alphabet, random long strings, 6 destination buffers each; non-trivial: contains %", func(r *Run) {
		// hex digits by themselves
		for c := 0; c < 256; c++ {
			if v := hexval(byte(c)); v >= 0 {
				if got := hexconv.Parse(byte(c)); int(got) != v {
					r.Violate("hex-digit", c, "hexconv.Parse(%q) = %d, want %d", rune(c), got, v)
				}
				r.Count("hex_digits", 1)
			}
		}
		for a := 0; a < 256; a++ {
			for b := 0; b < 256; b++ {
				e := string([]byte{'%', byte(a), byte(b)})
				check(r, e, true)
				check(r, "/x"+e+"y%41", false)
			}
			check(r, "ab%"+string([]byte{byte(a)}), true)
			check(r, string([]byte{byte(a)}), true)
		}
		Strings("%4aG/", 5, func(s string) { check(r, s, true) })
		Strings("%0fF", r.N(6, 8), func(s string) { check(r, s, false) })
		g := r.Rng("random")
		for i := 0; i < r.N(20000, 600000); i++ {
			var b []byte
			n := g.Intn(60)
			if Chance(g, 3) {
				n = 1000 + g.Intn(9000)
			}
			bad := Chance(g, 30)
			for len(b) < n {
				switch k := g.Intn(10); {
				case k < 4:
					b = append(b, []byte(fmt.Sprintf(Pick(g, []string{"%%%02x", "%%%02X"}), g.Intn(256)))...)
				case k == 4 && bad:
					b = append(b, '%', byte(g.Intn(256)))
				default:
					c := byte(g.Intn(256))
					if c == '%' && !bad {
						c = 'p'
					}
					b = append(b, c)
				}
			}
			if Chance(g, 10) {
				b = append(b, '%')
			}
			if Chance(g, 5) {
				b = append(b, '%', 'a')
			}
			check(r, string(b), true)
			if i < 3 {
				r.Sample("random", Q(b))
			}
		}
		// what paths are made of: nothing of it is special, encoded or not
		words := []string{"..", ".", "/", "//", "../", "/./", "\\", "index.html", "+", "%25", "%2525", "%2e%2e%2f", "%2E", "%2F", "%5c", "%00",
			"?", "#", "%3F", "%23", "%20", "%2B", "&", "=", "%C3%A9", "%c0%af", "%FF", "é", "%0d%0a", "\r\n", " ", "%u0041", "%%", "%7e", "~", ";", "a", "%61"}
		for i := 0; i < r.N(20000, 300000); i++ {
			s := ""
			for n := 1 + g.Intn(9); n > 0; n-- {
				w := Pick(g, words)
				if (w == "%u0041" || w == "%%") && Chance(g, 80) {
					w = "/"
				}
				s += w
			}
			check(r, s, i%4 == 0)
		}
		// large: no size and no number of escapes is special
		for i := 0; i < r.N(30, 300); i++ {
			n := Pick(g, []int{4096, 32768, 65536, 70000, 131072, 300000, 1 << 20}) + g.Intn(5) - 2
			b := bytes.Repeat([]byte(Pick(g, []string{"a", "ab/", "%41", "%2f", "a%00", "%fFx"})), n)[:n]
			for len(b) > 0 && (b[len(b)-1] == '%' || len(b) > 1 && b[len(b)-2] == '%') {
				b = b[:len(b)-1]
			}
			switch g.Intn(4) {
			case 0:
				b = append(b, "%7e"...)
			case 1:
				b = append(b, "%4"...)
			case 2:
				b = append([]byte("%20"), b...)
			}
			check(r, string(b), i%3 == 0)
			r.Count("large", 1)
		}
		// concurrent use: every call is independent
		var wg sync.WaitGroup
		for w := 0; w < 8; w++ {
			g := r.Rng(fmt.Sprint("conc", w))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < r.N(4000, 100000); i++ {
					s := Word(g, "ab", 0, 5) + fmt.Sprintf("%%%02x", g.Intn(256)) + Word(g, Alnum, 0, 40) + fmt.Sprintf("%%%02X", g.Intn(256))
					want, _ := ref([]byte(s))
					got, err := uridecode.Decode([]byte(s), nil)
					if i%64 == 0 {
						runtime.Gosched()
					}
					if err != nil || !bytes.Equal(got, want) {
						r.Violate("concurrent", Q(s), "concurrently: Decode(%s) = %s, %v", Q(s), Q(got), err)
					}
					r.Count("concurrent", 1)
				}
			}()
		}
		wg.Wait()
		r.Floor("concurrent", 1000)
		r.Floor("results_held", 1000)
		r.Floor("valid", 10000)
		r.Floor("rejected", 10000)
	})
}
