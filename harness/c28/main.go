//go:build go1.22

// Monitor of C28: call-recording codings checked against a reference manager.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"unsafe"

	"github.com/indigo-web/indigo/http/coding"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
)

type call struct {
	id     int
	decode bool
	input  []byte
}

// recorder is a coding whose every action is visible and whose output tells who produced it.
type recorder struct {
	id    int
	token string
	buff  []byte
	fail  bool
	log   *[]call
	out   []byte
	err   error
}

func (c *recorder) Token() string { return c.token }

func (c *recorder) do(input []byte, decode bool) ([]byte, error) {
	*c.log = append(*c.log, call{c.id, decode, input})
	c.out = []byte(fmt.Sprintf("%d/%v/%s", c.id, decode, input))
	switch {
	case len(input) > 0 && input[0]%16 == 1: // nothing comes out of it
		c.out = nil
	case len(input) > 0 && input[0]%16 == 2:
		c.out = []byte{}
	case len(input) > 0 && input[0]%64 == 3: // much more comes out of it
		c.out = bytes.Repeat(c.out, 200)
	case len(input) > 0 && input[0]%16 == 4: // the same comes out of it, possibly in its own buffer
		if c.out = append(c.buff[:0], input...); len(input) > len(c.buff) {
			c.out = bytes.Clone(input)
		}
		defer func() { copy(c.out, input) }()
	}
	c.err = nil
	if c.fail {
		c.err = fmt.Errorf("error of the coding %d", c.id)
	}
	// own buffer is scribbled over: it must not be shared with anything
	for i := range c.buff {
		c.buff[i] = byte(c.id)
	}
	return c.out, c.err
}

func (c *recorder) Encode(input []byte) ([]byte, error) { return c.do(input, false) }
func (c *recorder) Decode(input []byte) ([]byte, error) { return c.do(input, true) }

func same(a, b []byte) bool {
	return len(a) == len(b) && (len(a) == 0 || unsafe.SliceData(a) == unsafe.SliceData(b))
}

var tokens = []string{"gzip", "compress", "deflate", "br", "zstd", "x-gzip", "x-compress", "identity", "Gzip", "GZIP", "",
	"x-deflate", "x-br", "x-", "gzi", "gzipx", "exi", "Identity", "x-identity", "compres", "x-x-gzip", "chunked"}

// near is a token that is almost the given one: tokens are compared exactly.
func near(g *rand.Rand, t string) string {
	if len(t) == 0 {
		return Pick(g, []string{" ", "\t", ","})
	}
	k := g.Intn(len(t))
	switch g.Intn(9) {
	case 0:
		return " " + t
	case 1:
		return t + Pick(g, []string{" ", "\t", ",", ";q=1", "\x00", "*"})
	case 2:
		return strings.ToUpper(t)
	case 3:
		return strings.ToUpper(t[:1]) + t[1:]
	case 4:
		return t[:k] + t[k+1:]
	case 5:
		return t[:k] + string(t[k]^0x20) + t[k+1:]
	case 6:
		return "x-" + t
	case 7:
		return strings.TrimPrefix(t, "x-")
	}
	return t + t
}

func history(r *Run, g *rand.Rand, i int) {
	r.Step("history %d", i)
	sizes := []int64{0, 1, 2, 16, 1024, 4096}
	size := Pick(g, sizes)
	if i%50 == 7 {
		size = Pick(g, []int64{32768, 65535, 65536, 65537, 200000})
	}
	var (
		log  []call
		all  []*recorder
		ref  = map[string]*recorder{}
		hist []string
	)
	note := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
	r.Guard("manager", &hist, func() {
		m := coding.NewManager(size)
		var mem Scratch
		mgrs := []coding.Manager{m, m} // a manager is copied by value: both work on the same codings
		other := coding.NewManager(size + 1)
		nOther := 0
		n := 1 + g.Intn(14)
		many := i%1000 == 999
		if many {
			n = 1200
		}
		for op := 0; op < n; op++ {
			mm := Pick(g, mgrs)
			switch k := g.Intn(10); {
			case k < 3: // register
				c := &recorder{id: len(all), token: Pick(g, tokens), fail: Chance(g, 25), log: &log}
				if many && Chance(g, 80) {
					c.token = Word(g, Lower, 3, 5)
					r.Count("many", 1)
				}
				note("add %d as %q (fails: %v)", c.id, c.token, c.fail)
				calls := 0
				mm.AddCoding(func(buff []byte) coding.Coding {
					calls++
					c.buff = buff
					if int64(len(buff)) != size {
						r.Violate("buffer-size", hist, "buffer of %d bytes for a manager with %d", len(buff), size)
					}
					for _, b := range buff {
						if b != 0 {
							r.Violate("buffer-content", hist, "the buffer has content")
							break
						}
					}
					for _, o := range all {
						if len(o.buff) > 0 && len(buff) > 0 && overlap(o.buff, buff) {
							r.Violate("buffer-shared", hist, "the codings %d and %d share a buffer", o.id, c.id)
						}
					}
					return c
				})
				if calls != 1 {
					r.Violate("constructed-once", hist, "constructor called %d times", calls)
				}
				if len(log) != 0 {
					r.Violate("no-use-on-add", hist, "a coding was used on registration")
				}
				all = append(all, c)
				ref[c.token] = c
				if c.token == "gzip" || c.token == "compress" {
					ref["x-"+c.token] = c
				}
				r.Count("registrations", 1)
			case k == 3:
				nOther++
				note("add to the other manager")
				oc := &recorder{id: 1000 + nOther, token: Pick(g, tokens), log: &log}
				other.AddCoding(func(b []byte) coding.Coding { oc.buff = b; return oc })
			default:
				token := Pick(g, tokens)
				if Chance(g, 50) && len(all) > 0 {
					token = Pick(g, all).token
				}
				if Chance(g, 20) {
					token = near(g, token)
				}
				if Chance(g, 8) {
					token = Word(g, Lower+"-", 1, 9)
				}
				input := Bytes(g, g.Intn(40))
				if many && Chance(g, 5) {
					input = Bytes(g, g.Intn(200000))
				}
				if Chance(g, 15) {
					input = nil
				}
				orig := bytes.Clone(input)
				decode := Chance(g, 50)
				note("%s %q", map[bool]string{true: "decode", false: "encode"}[decode], token)
				log = log[:0]
				var out []byte
				var err error
				arg := token
				if Chance(g, 50) {
					arg = mem.String(token) // as a token of a request
				}
				if decode {
					out, err = mm.Decode(arg, input)
				} else {
					out, err = mm.Encode(arg, input)
				}
				r.Count("coding_calls", 1)
				if !bytes.Equal(orig, input) {
					r.Violate("input-modified", hist, "the input was modified")
				}
				c, ok := ref[token]
				switch {
				case token == "identity" || len(input) == 0:
					r.Count("identity", 1)
					if err != nil || !bytes.Equal(out, orig) {
						r.Violate("identity", hist, "%q of %q gives %q, %v", token, orig, out, err)
					}
					if len(log) != 0 {
						r.Violate("identity-called", hist, "a coding was called for %q with %d bytes", token, len(input))
					}
				case !ok:
					r.Count("unknown", 1)
					if !errors.Is(err, coding.ErrUnknownToken) || len(out) != 0 {
						r.Violate("unknown-token", hist, "%q gives %q, %v", token, out, err)
					}
					if len(log) != 0 {
						r.Violate("unknown-called", hist, "a coding was called for %q", token)
					}
				default:
					r.Count("applied", 1)
					if strings.HasPrefix(token, "x-") && c.token != token {
						r.Count("aliased", 1)
					}
					if len(log) != 1 || log[0].id != c.id || log[0].decode != decode || !bytes.Equal(log[0].input, orig) {
						r.Violate("wrong-coding", hist, "%q with %q made the calls %v, want one of coding %d", token, orig, log, c.id)
						return
					}
					if err != c.err {
						r.Violate("error-passed", hist, "error %v instead of %v", err, c.err)
					}
					if !same(out, c.out) && !bytes.Equal(out, c.out) {
						r.Violate("output-passed", hist, "output %q instead of %q", out, c.out)
					}
				}
				log = log[:0]
			}
		}
	})
	r.Eval(fmt.Sprintf("%d/%s", size, strings.Join(hist, ";")))
	r.Sample("history", hist)
}

func overlap(a, b []byte) bool {
	a, b = a[:cap(a)], b[:cap(b)]
	pa, pb := uintptr(unsafe.Pointer(unsafe.SliceData(a))), uintptr(unsafe.Pointer(unsafe.SliceData(b)))
	return pa < pb+uintptr(len(b)) && pb < pa+uintptr(len(a))
}

func main() {
	Main("C28", "a history of registrations and coding calls; distinct by its text", func(r *Run) {
		if coding.ErrUnknownToken == nil || coding.ErrUnknownToken.Error() == "" {
			r.Violate("unknown-token-error", nil, "ErrUnknownToken is empty")
		}
		g := r.Rng("histories")
		for i := 0; i < r.N(60000, 1500000); i++ {
			history(r, g, i)
		}
		r.Floor("registrations", 50000)
		r.Floor("applied", 30000)
		r.Floor("aliased", 500)
		r.Floor("unknown", 30000)
		r.Floor("identity", 20000)
	})
}
