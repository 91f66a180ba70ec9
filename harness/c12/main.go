//go:build go1.22

// Monitor of C12: random operation histories on the key-value storage against a reference multimap.
package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"unsafe"

	"github.com/indigo-web/indigo/http/headers"
	"github.com/indigo-web/indigo/internal/keyvalue"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
	. "github.com/indigo-web/indigo/internal/zzverif/vsrv"
)

type pair struct{ k, v string }

type store struct {
	s   *keyvalue.Storage
	ref []pair
	// memory the strings of the storage live in
	mem [][]byte
}

func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c | 0x20
		}
	}
	return string(b)
}

func eq(a, b string) bool { return lower(a) == lower(b) }

// volatile returns the string in memory of its own that will be overwritten later
func (st *store) volatile(s string) string {
	b := []byte(s)
	st.mem = append(st.mem, b)
	return unsafe.String(unsafe.SliceData(b), len(b))
}

// compare checks every observation for one key and the whole content
func compare(r *Run, c any, st *store, key string, log []string) bool {
	fail := func(kind, format string, args ...any) bool {
		r.Violate(kind, map[string]any{"operations": log}, format, args...)
		return false
	}
	r.Count("comparisons", 1)
	if st.s.Len() != len(st.ref) {
		return fail("len", "Len() = %d, want %d", st.s.Len(), len(st.ref))
	}
	var vals []string
	for _, p := range st.ref {
		if eq(p.k, key) {
			vals = append(vals, p.v)
		}
	}
	first, found := "", len(vals) > 0
	if found {
		first = vals[0]
	}
	if v, ok := st.s.Get(key); v != first || ok != found {
		return fail("get", "Get(%q) = %q, %v; want %q, %v", key, v, ok, first, found)
	}
	if v := st.s.Value(key); v != first {
		return fail("value", "Value(%q) = %q; want %q", key, v, first)
	}
	or := first
	if !found {
		or = "default"
	}
	if v := st.s.ValueOr(key, "default"); v != or {
		return fail("value-or", "ValueOr(%q) = %q; want %q", key, v, or)
	}
	if st.s.Has(key) != found {
		return fail("has", "Has(%q) = %v", key, st.s.Has(key))
	}
	held := st.s.Values(key)
	if got := held; strings.Join(got, "\x01") != strings.Join(vals, "\x01") || len(got) != len(vals) || (got == nil) != !found {
		return fail("values", "Values(%q) = %q; want %q", key, got, vals)
	}
	var keys []string
	seen := map[string]bool{}
	for _, p := range st.ref {
		if l := lower(p.k); !seen[l] {
			seen[l] = true
			keys = append(keys, p.k)
		}
	}
	got := st.s.Keys()
	if strings.Join(got, "\x01") != strings.Join(keys, "\x01") || len(got) != len(keys) {
		return fail("keys", "Keys() = %q; want %q", got, keys)
	}
	// what was returned stays as it is until the very same is asked for again
	if strings.Join(held, "\x01") != strings.Join(vals, "\x01") {
		return fail("values-overridden", "the values of %q became %q after Keys(); want %q", key, held, vals)
	}
	st.s.Values(key)
	if strings.Join(got, "\x01") != strings.Join(keys, "\x01") {
		return fail("keys-overridden", "the keys became %q after Values(%q); want %q", got, key, keys)
	}
	un := st.s.Unwrap()
	if len(un) != len(st.ref) {
		return fail("unwrap", "Unwrap() has %d pairs, want %d", len(un), len(st.ref))
	}
	it := st.s.Iter()
	for i, p := range st.ref {
		if un[i].Key != p.k || un[i].Value != p.v {
			return fail("unwrap", "pair %d is %q, want %q", i, un[i], p)
		}
		e, ok := it.Next()
		if !ok || e.Key != p.k || e.Value != p.v {
			return fail("iter", "iteration %d gives %q, %v; want %q", i, e, ok, p)
		}
	}
	if e, ok := it.Next(); ok {
		return fail("iter", "iteration goes on with %q", e)
	}
	return true
}

func genKey(g *rand.Rand, st *store) string {
	if len(st.ref) > 0 && Chance(g, 60) {
		return RandCase(g, Pick(g, st.ref).k)
	}
	if Chance(g, 30) {
		return Pick(g, []string{"", "a", "A", "b", "aa", "Content-Type", "content-type", "@", "`", "[", "{", "\x00", " ", "é", "É", "\xc3", "\xe3", "k", "K", "\u212a", "a-b", "a_b", "A\rB", "a-"})
	}
	if Chance(g, 4) {
		return strings.Repeat(Pick(g, []string{"a", "A", "-"}), Pick(g, []int{7, 8, 9, 15, 16, 31, 32, 63, 64, 65, 128, 255, 256})) + Word(g, "aA", 0, 1)
	}
	return Word(g, "aAbB-@`", 0, 4)
}

func history(r *Run, g *rand.Rand, i int) {
	r.Step("history %d", i)
	var stores []*store
	var log []string
	note := func(format string, args ...any) { log = append(log, fmt.Sprintf(format, args...)) }
	create := func() {
		st := &store{}
		n := g.Intn(4)
		switch g.Intn(4) {
		case 0:
			st.s = keyvalue.New()
		case 1:
			st.s = keyvalue.NewPreAlloc(n)
		case 2:
			st.s = headers.NewPrealloc(n)
		case 3:
			st.s = headers.New()
		}
		note("new %d", len(stores))
		stores = append(stores, st)
	}
	create()
	r.Guard("panic", map[string]any{"operations": &log}, func() {
		for n := 3 + g.Intn(30); n > 0; n-- {
			k := g.Intn(len(stores))
			st := stores[k]
			r.Count("operations", 1)
			switch op := g.Intn(20); {
			case op < 9:
				key, val := genKey(g, st), Word(g, Alnum, 0, 4)
				note("%d.Add(%q, %q)", k, key, val)
				if st.s.Add(st.volatile(key), st.volatile(val)) != st.s {
					r.Violate("add", map[string]any{"operations": log}, "Add doesn't return its storage")
				}
				st.ref = append(st.ref, pair{key, val})
			case op < 11:
				note("%d.Clear()", k)
				st.s.Clear()
				st.ref = nil
				if len(st.mem) > 0 && Chance(g, 60) {
					// the memory of the cleared strings gets another content
					for _, m := range st.mem {
						for j := range m {
							m[j] = '#'
						}
					}
					st.mem = nil
				}
			case op < 14 && len(stores) < 5:
				note("%d = %d.Clone()", len(stores), k)
				cl := st.s.Clone()
				r.Count("clones", 1)
				stores = append(stores, &store{s: cl, ref: append([]pair(nil), st.ref...)})
			case op < 15 && len(stores) < 5:
				create()
			}
			for j, st := range stores {
				key := genKey(g, st)
				note("compare %d %q", j, key)
				if !compare(r, nil, st, key, log) {
					return
				}
				log = log[:len(log)-1]
			}
			if len(stores) > 1 {
				// what one storage returned isn't affected by asking the others
				a := stores[g.Intn(len(stores))]
				key := genKey(g, a)
				vals, keys := a.s.Values(key), a.s.Keys()
				was := fmt.Sprintf("%q %q", vals, keys)
				for _, b := range stores {
					if b != a {
						b.s.Values(genKey(g, b))
						b.s.Keys()
					}
				}
				if is := fmt.Sprintf("%q %q", vals, keys); is != was {
					r.Violate("shared", map[string]any{"operations": log}, "values and keys of a storage change from %s to %s when other storages are asked", was, is)
					return
				}
			}
		}
		// at the end the memory of each storage is destroyed: all the others must not notice
		for k, st := range stores {
			for _, m := range st.mem {
				for j := range m {
					m[j] = '#'
				}
			}
			note("memory of %d overwritten", k)
			for j, other := range stores {
				if j <= k && j >= 0 && len(stores[j].mem) > 0 {
					continue
				}
				if !compare(r, nil, other, genKey(g, other), log) {
					return
				}
			}
		}
	})
	r.Eval(strings.Join(log, "\n"))
	if i < 2 {
		r.Sample("history", log)
	}
}

// big: storages of many pairs, long strings
func big(r *Run, g *rand.Rand) {
	r.Step("big")
	st := &store{s: keyvalue.NewPreAlloc(g.Intn(40))}
	r.Guard("panic", "many pairs", func() {
		for round := 0; round < 2; round++ {
			distinct := Pick(g, []int{1, 3, 50, 2000})
			total := 1 + g.Intn(Pick(g, []int{40, 300, 3000}))
			next := 1
			for i := 0; i < total; i++ {
				key, val := fmt.Sprintf("Key-%d", g.Intn(distinct)), fmt.Sprint("v", i)
				switch {
				case Chance(g, 10):
					key = RandCase(g, key)
				case g.Intn(500) == 0:
					val = Word(g, Alnum, 0, 200000)
				case g.Intn(500) == 0:
					key = Word(g, Alnum, 0, 100000)
				}
				st.s.Add(key, val)
				st.ref = append(st.ref, pair{key, val})
				if i == next || i == total-1 {
					next = next*2 + 1
					log := []string{fmt.Sprintf("%d pairs of up to %d keys added", i+1, distinct)}
					for _, k := range []string{Pick(g, st.ref).k, st.ref[i].k, "absent"} {
						if !compare(r, nil, st, k, log) {
							return
						}
					}
					cl := &store{s: st.s.Clone(), ref: st.ref}
					if !compare(r, nil, cl, Pick(g, st.ref).k, append(log, "clone")) {
						return
					}
				}
			}
			r.Count("big", 1)
			st.s.Clear()
			st.ref = nil
		}
	})
	r.Eval(fmt.Sprint("big", g.Int63()))
}

func fromMap(r *Run, g *rand.Rand) {
	m := map[string][]string{}
	var want []string
	for n := g.Intn(6); n > 0; n-- {
		k := Word(g, "abcdefgh", 1, 3)
		if _, ok := m[k]; ok {
			continue
		}
		m[k] = []string{}
		for j := g.Intn(4); j > 0; j-- {
			v := Word(g, Alnum, 0, 3)
			m[k] = append(m[k], v)
			want = append(want, k+"="+v)
		}
	}
	for name, s := range map[string]*keyvalue.Storage{"keyvalue": keyvalue.NewFromMap(m), "headers": headers.NewFromMap(m)} {
		var got []string
		for _, p := range s.Unwrap() {
			got = append(got, p.Key+"="+p.Value)
		}
		for k, vs := range m {
			if g := s.Values(k); strings.Join(g, ",") != strings.Join(vs, ",") {
				r.Violate("from-map-values", fmt.Sprint(m), "%s: values of %q: %q, want %q", name, k, g, vs)
			}
		}
		sort.Strings(got)
		sort.Strings(want)
		if strings.Join(got, ",") != strings.Join(want, ",") {
			r.Violate("from-map", fmt.Sprint(m), "%s: %q, want %q", name, got, want)
		}
		r.Count("maps", 1)
	}
	r.Eval("map" + fmt.Sprint(m))
}

func main() {
	Main("C12", "random operation histories over up to 5 storages and their clones, every observation compared after each operation; distinct by history", func(r *Run) {
		g := r.Rng("histories")
		for i := 0; i < r.N(15000, 500000); i++ {
			history(r, g, i)
		}
		for i := 0; i < r.N(60, 1500); i++ {
			big(r, g)
		}
		for i := 0; i < r.N(3000, 50000); i++ {
			fromMap(r, g)
		}
		r.Floor("comparisons", 100000)
		r.Floor("clones", 5000)
		r.Floor("big", 100)
		r.Floor("maps", 1000)
	})
}
