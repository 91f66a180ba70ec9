//go:build go1.22

// Monitor of C33: histories of the length-indexed map against a reference map.
package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/indigo-web/indigo/internal/strlenmap"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
)

type op struct {
	Key string
	Val int
}

// history inserts the keys in order and looks every key of the universe up after each insertion.
func history(r *Run, ops []op, universe []string) {
	m := strlenmap.New[int]()
	p := strlenmap.New[*int]()
	var mem Scratch
	ref := map[string]int{}
	ptrs := map[string]*int{}
	lookup := func(when string) bool {
		for _, k := range universe {
			// an equal key in different memory
			k2 := string(append([]byte(nil), k...))
			v, ok := m.Get(k2)
			want, wok := ref[k]
			r.Count("lookups", 1)
			if ok != wok || v != want {
				r.Violate("get", ops, "%s: Get(%s) = %v, %v; want %v, %v", when, Q(k), v, ok, want, wok)
				return false
			}
			pv, pok := p.Get(k2)
			if pok != wok || pv != ptrs[k] {
				r.Violate("get-pointer", ops, "%s: Get(%s) of pointers = %v, %v", when, Q(k), pv, pok)
				return false
			}
			if ok {
				r.Count("hits", 1)
			}
		}
		// keys one after another in the same memory
		for _, k := range universe {
			v, ok := m.Get(mem.String(k))
			want, wok := ref[k]
			if ok != wok || v != want {
				r.Violate("get-memory", ops, "%s: Get(%s) = %v, %v; want %v, %v (in reused memory)", when, Q(k), v, ok, want, wok)
				return false
			}
		}
		return true
	}
	r.Guard("history", ops, func() {
		if !lookup("empty") {
			return
		}
		for i, o := range ops {
			v := o.Val
			m.Insert(o.Key, v)
			p.Insert(o.Key, &v)
			if _, ok := ref[o.Key]; !ok {
				ref[o.Key] = v
				ptrs[o.Key] = &v
			}
			if !lookup(fmt.Sprintf("after insertion %d (%s)", i, Q(o.Key))) {
				return
			}
		}
	})
	r.Eval(fmt.Sprint(ops))
}

// large inserts n keys of about the length.
func large(r *Run, g *rand.Rand, n, length int) {
	m := strlenmap.New[int]()
	ref := map[string]int{}
	pad := strings.Repeat("p", max(length-6, 0))
	c := fmt.Sprintf("%d keys of %d bytes", n, length)
	r.Guard("large", c, func() {
		for i := 0; i < n; i++ {
			k := pad + fmt.Sprintf("%06d", g.Intn(1000000))
			if Chance(g, 10) && len(k) > 0 {
				k = k[1:]
			}
			m.Insert(k, i+1)
			if _, ok := ref[k]; !ok {
				ref[k] = i + 1
			}
		}
		for k, want := range ref {
			r.Count("large_keys", 1)
			if v, ok := m.Get(strings.Clone(k)); !ok || v != want {
				r.Violate("large", c, "%s: Get(...%s) = %v, %v; want %v", c, k[max(0, len(k)-8):], v, ok, want)
				return
			}
			if len(k) > 0 {
				b := []byte(k)
				b[g.Intn(len(b))] ^= Pick(g, []byte{1, 0x20, 0x80})
				if v, ok := m.Get(string(b)); ok != (ref[string(b)] != 0) || v != ref[string(b)] {
					r.Violate("large-near", c, "%s: a key differing in one byte: %v, %v", c, v, ok)
					return
				}
			}
			if _, ok := m.Get(k + "x"); ok {
				if _, in := ref[k+"x"]; !in {
					r.Violate("large", c, "%s: a longer key is found", c)
				}
			}
		}
	})
	r.Eval("large" + c)
}

func main() {
	Main("C33", "every insertion sequence of up to 4 keys (5 in thorough) over an 8-key universe with lengths 0..4, random sequences with key lengths up to 300; every key of the universe looked up after each insertion", func(r *Run) {
		small := []string{"", "a", "b", "ab", "ba", "abc", "abd", "dcba"}
		extra := append([]string{"A", "B", "c", "aB", "\x00", "a\x00", "abcd", "abcde", strings.Repeat("a", 40)}, small...)
		depth := r.N(4, 5)
		var rec func(ops []op)
		rec = func(ops []op) {
			if len(ops) > 0 {
				history(r, ops, extra)
			}
			if len(ops) == depth {
				return
			}
			for _, k := range small {
				rec(append(append([]op(nil), ops...), op{k, len(ops)*100 + len(k) + 1}))
			}
		}
		rec(nil)
		g := r.Rng("random")
		for i := 0; i < r.N(400, 8000); i++ {
			var ops []op
			uni := map[string]bool{"": true, "zz": true}
			maxLen := Pick(g, []int{3, 12, 300})
			for n := g.Intn(60); n > 0; n-- {
				k := Word(g, Pick(g, []string{"ab", Alnum, "aA"}), 0, maxLen)
				if len(ops) > 0 && Chance(g, 25) {
					k = ops[g.Intn(len(ops))].Key
				}
				ops = append(ops, op{k, g.Intn(1 << 30)})
				uni[k] = true
				if len(k) > 0 {
					// near misses: same length with another byte, prefix, extension
					uni[k[:len(k)-1]+"~"] = true
					uni["~"+k[1:]] = true
					uni[k[:len(k)-1]] = true
					p := g.Intn(len(k))
					uni[k[:p]+string(k[p]^0x20)+k[p+1:]] = true
					p = g.Intn(len(k))
					uni[k[:p]+string(k[p]^1)+k[p+1:]] = true
					uni[k[1:]+k[:1]] = true
				}
				uni[k+"x"] = true
			}
			var u []string
			for k := range uni {
				u = append(u, k)
			}
			history(r, ops, u)
			if i < 2 {
				r.Sample("random", ops)
			}
		}
		// many keys of one length, and very long keys
		for i := 0; i < r.N(4, 30); i++ {
			r.Step("large %d", i)
			large(r, g, Pick(g, []int{100, 300, 1100, 5000}), Pick(g, []int{4, 8, 300, 4200}))
		}
		for _, n := range []int{255, 256, 257, 1023, 1024, 4095, 4096, 4097, 16384, 65535, 65536, 65537, 1 << 20} {
			large(r, g, 3, n)
		}
		r.Floor("large_keys", 300)
		r.Floor("hits", 10000)
	})
}
