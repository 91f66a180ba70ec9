//go:build go1.22

// Monitor of C22: byte and error conservation of the stream adapter over scripted sources.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"time"

	"github.com/indigo-web/indigo/internal/stash"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
)

type script struct {
	Pieces []int  // lengths of the pieces returned without an error
	Last   int    // length of the piece returned together with the error
	Err    string // which error
	Sizes  []int  // buffer sizes, repeated
	Reset  int    // reset after that many reads (-1: never) and start a second stream
}

var customErr = errors.New("custom")
var errs = map[string]error{
	"EOF": io.EOF, "unexpected": io.ErrUnexpectedEOF, "custom": customErr,
	"wrapped": fmt.Errorf("wrapped: %w", io.EOF),
}

type source struct {
	r        *Run
	pieces   [][]byte
	err      error
	calls    int
	finished bool
	given    int
	lastMem  []byte
	consumed *int // bytes read so far by the consumer
	bad      string
	mutated  bool
	wantMem  []byte
}

// retrieve models the connection: the memory of the previous piece is reused, hence poisoned.
func (s *source) retrieve() ([]byte, error) {
	if s.finished {
		s.bad = "the source was asked again after its error"
		return nil, s.err
	}
	if *s.consumed < s.given {
		s.bad = fmt.Sprintf("the source was asked with %d of its bytes still pending", s.given-*s.consumed)
	}
	if !bytes.Equal(s.lastMem, s.wantMem) {
		s.mutated = true
	}
	for i := range s.lastMem {
		s.lastMem[i] = 0xEE
	}
	p := append([]byte(nil), s.pieces[s.calls]...)
	s.lastMem, s.wantMem = p, append([]byte(nil), p...)
	s.given += len(p)
	s.calls++
	if s.calls == len(s.pieces) {
		s.finished = true
		return p, s.err
	}
	return p, nil
}

func newSource(r *Run, sc script, consumed *int, base byte) (*source, []byte) {
	s := &source{r: r, err: errs[sc.Err], consumed: consumed}
	var all []byte
	next := int(base)
	mk := func(n int) {
		p := make([]byte, n)
		for i := range p {
			p[i] = byte(next ^ next>>8*31)
			next++
		}
		s.pieces = append(s.pieces, p)
		all = append(all, p...)
	}
	for _, n := range sc.Pieces {
		mk(n)
	}
	mk(sc.Last)
	return s, all
}

func check(r *Run, sc script) {
	var consumed int
	src, want := newSource(r, sc, &consumed, 1)
	cur := src
	rd := stash.New(func() ([]byte, error) { return cur.retrieve() })
	reads := 0
	// drain reads to the end of the stream; limit<0: till the end
	drain := func(label string, want []byte, limit int) {
		var got []byte
		for step := 0; ; step++ {
			if limit >= 0 && step >= limit {
				return
			}
			size := sc.Sizes[step%len(sc.Sizes)]
			mem := bytes.Repeat([]byte{0xCC}, size+8)
			var n int
			var err error
			if !r.Guard("read", sc, func() { n, err = rd.Read(mem[:size:size]) }) {
				return
			}
			reads++
			if n < 0 || n > size {
				r.Violate("bad-n", sc, "%s: Read returned n=%d for a buffer of %d", label, n, size)
				return
			}
			for _, c := range mem[size:] {
				if c != 0xCC {
					r.Violate("overrun", sc, "%s: memory past the buffer was written", label)
					return
				}
			}
			got = append(got, mem[:n]...)
			consumed += n
			if cur.bad != "" {
				r.Violate("source-misuse", sc, "%s: %s", label, cur.bad)
				return
			}
			if cur.mutated {
				r.Violate("source-modified", sc, "%s: memory of the source was modified", label)
				return
			}
			if len(got) > len(want) || !bytes.Equal(got, want[:len(got)]) {
				r.Violate("wrong-bytes", sc, "%s: got % x, want a prefix of % x", label, got, want)
				return
			}
			if err != nil {
				if err != cur.err {
					r.Violate("wrong-error", sc, "%s: error %v, want %v", label, err, cur.err)
				}
				if !cur.finished {
					r.Violate("early-error", sc, "%s: error before the source's", label)
				}
				if len(got) != len(want) {
					r.Violate("lost-bytes", sc, "%s: the error came after %d of %d bytes", label, len(got), len(want))
				}
				r.Count("errors_seen", 1)
				break
			}
			if step > 400+8*(len(want)+len(sc.Pieces)+2)*len(sc.Sizes) {
				r.Violate("no-error", sc, "%s: the error never came after %d reads", label, step)
				return
			}
		}
		// the error stays
		for i := 0; i < 4; i++ {
			b := make([]byte, i)
			n, err := rd.Read(b)
			if n != 0 || err != cur.err {
				r.Violate("error-not-sticky", sc, "%s: after the error Read = %d, %v", label, n, err)
				return
			}
			if cur.bad != "" {
				r.Violate("source-misuse", sc, "%s: %s", label, cur.bad)
				return
			}
		}
	}
	drain("first stream", want, sc.Reset)
	if sc.Reset >= 0 {
		consumed = 0
		second, want2 := newSource(r, sc, &consumed, 101)
		r.Guard("reset", sc, func() { rd.Reset() })
		cur = second
		drain("stream after reset", want2, -1)
		r.Count("resets", 1)
	} else {
		// reset after the end, too
		consumed = 0
		second, want2 := newSource(r, script{Pieces: []int{2}, Last: 1, Err: "EOF", Sizes: sc.Sizes}, &consumed, 201)
		rd.Reset()
		cur = second
		drain("second stream", want2, -1)
	}
	r.Count("reads", int64(reads))
	key := ""
	if len(want) > 0 {
		key = fmt.Sprint(sc)
	}
	r.Eval(key)
}

func main() {
	Main("C22", "every script of up to 3 pieces of 0..3 bytes, a last piece of 0..3 bytes with the error, every pattern of up to 3 buffer sizes, reset at random points; random larger scripts. Non-trivial: at least one byte", func(r *Run) {
		g := r.Rng("scripts")
		var sizes [][]int
		opts := []int{0, 1, 2, 3, 64}
		var recS func(p []int)
		recS = func(p []int) {
			sum := 0
			for _, x := range p {
				sum += x
			}
			if sum > 0 {
				sizes = append(sizes, append([]int(nil), p...))
			}
			if len(p) == 3 {
				return
			}
			for _, o := range opts {
				recS(append(p, o))
			}
		}
		recS(nil)
		names := []string{"EOF", "unexpected", "custom", "wrapped"}
		var rec func(p []int)
		rec = func(p []int) {
			for last := 0; last <= 3; last++ {
				for i, s := range sizes {
					sc := script{Pieces: append([]int(nil), p...), Last: last, Err: names[(i+last+len(p))%4], Sizes: s, Reset: -1}
					if (i+last)%3 == 0 {
						sc.Reset = g.Intn(8)
					}
					check(r, sc)
				}
			}
			if len(p) == r.N(3, 4) {
				return
			}
			for n := 0; n <= 3; n++ {
				rec(append(p, n))
			}
		}
		rec(nil)
		for i := 0; i < r.N(3000, 200000); i++ {
			sc := random(g)
			check(r, sc)
			if i < 2 {
				r.Sample("random", sc)
			}
		}
		// many pieces, and many resets of one adapter
		for i := 0; i < r.N(12, 60); i++ {
			sc := random(g)
			for n := Pick(g, []int{255, 256, 257, 1000, 5000, 66000}); n > 0; n-- {
				sc.Pieces = append(sc.Pieces, g.Intn(4))
			}
			sc.Sizes = append(sc.Sizes, 7)
			if i%2 == 0 {
				// large pieces, also the one coming with the error
				sc.Pieces = []int{g.Intn(200000), g.Intn(3), g.Intn(300000)}
				sc.Last = 60000 + g.Intn(300000)
				sc.Sizes = []int{Pick(g, []int{1000, 4096, 65536, 100000, 1 << 20})}
			}
			check(r, sc)
			r.Count("many_pieces", 1)
		}
		reused(r, g)
		several(r, g)
		standard(r)
		r.Floor("errors_seen", 10000)
		r.Floor("resets", 1000)
	})
}

// big is a size around the buffer sizes used in practice
func big(g *rand.Rand) int {
	return 2 + Pick(g, []int{256, 512, 1024, 2048, 4096, 8192, 16384, 65536}) + g.Intn(20) - 10
}

func random(g *rand.Rand) script {
	sc := script{Err: Pick(g, []string{"EOF", "custom", "unexpected", "wrapped"}), Reset: -1}
	for n := g.Intn(9); n > 0; n-- {
		sc.Pieces = append(sc.Pieces, g.Intn(Pick(g, []int{2, 8, 60, 60, 8, 60, big(g)})))
	}
	sc.Last = g.Intn(Pick(g, []int{1, 2, 40, 40, big(g)}))
	for n := 1 + g.Intn(5); n > 0; n-- {
		sc.Sizes = append(sc.Sizes, g.Intn(Pick(g, []int{2, 5, 20, 200, 20, 200, big(g)})))
	}
	sc.Sizes = append(sc.Sizes, 1+g.Intn(9))
	if Chance(g, 40) {
		sc.Reset = g.Intn(20)
	}
	return sc
}

// reused: one adapter serves stream after stream.
func reused(r *Run, g *rand.Rand) {
	n := r.N(70000, 300000)
	var want []byte
	left := 0
	rd := stash.New(func() ([]byte, error) {
		if left--; left > 0 {
			return want[:len(want)/2], nil
		}
		return want[len(want)/2:], io.EOF
	})
	buf := make([]byte, 64)
	for i := 0; i < n; i++ {
		want, left = []byte(fmt.Sprintf("stream %d", i)), 2
		rd.Reset()
		var got []byte
		var err error
		for k := 0; err == nil && k < 10; k++ {
			var m int
			m, err = rd.Read(buf)
			got = append(got, buf[:m]...)
		}
		if err != io.EOF || !bytes.Equal(got, want) {
			r.Violate("reused", i, "stream %d of one adapter gave %q, %v", i, got, err)
			return
		}
	}
	r.Count("reused", int64(n))
	r.Eval("reused")
}

// several adapters do not know of each other.
func several(r *Run, g *rand.Rand) {
	for i := 0; i < r.N(300, 5000); i++ {
		n := 2 + g.Intn(4)
		var rds []*stash.Reader
		var wants [][]byte
		got := make([][]byte, n)
		ended := make([]bool, n)
		consumed := 1 << 30
		for k := 0; k < n; k++ {
			sc := random(g)
			src, want := newSource(r, sc, &consumed, byte(50*k))
			rds, wants = append(rds, stash.New(src.retrieve)), append(wants, want)
		}
		for left, steps := n, 0; left > 0 && steps < 1<<20; steps++ {
			k := g.Intn(n)
			if ended[k] {
				continue
			}
			b := make([]byte, 1+g.Intn(300))
			m, err := rds[k].Read(b)
			got[k] = append(got[k], b[:m]...)
			if err != nil {
				ended[k] = true
				left--
			}
		}
		for k := range rds {
			if !bytes.Equal(got[k], wants[k]) {
				r.Violate("several", n, "%d adapters read in turn: one of them gave other bytes", n)
			}
		}
		r.Count("several", int64(n))
		r.Eval(fmt.Sprint("several", i, n))
	}
}

// standard feeds the adapter to the consumers of the standard library.
func standard(r *Run) {
	g := r.Rng("standard")
	for i := 0; i < r.N(300, 5000); i++ {
		sc := random(g)
		sc.Err = "EOF"
		consumed := 1 << 30 // the consumer is not under our control here
		src, want := newSource(r, sc, &consumed, 1)
		rd := stash.New(src.retrieve)
		var got []byte
		var err error
		done := make(chan struct{})
		go func() {
			defer close(done)
			if i%2 == 0 {
				got, err = io.ReadAll(rd)
			} else {
				var buf bytes.Buffer
				_, err = io.CopyBuffer(&buf, struct{ io.Reader }{rd}, make([]byte, 1+g.Intn(30)))
				got = buf.Bytes()
			}
		}()
		select {
		case <-done:
		case <-time.After(100 * time.Second):
			r.Violate("std-hang", sc, "io.ReadAll or io.Copy over the adapter did not end")
			return
		}
		if err != nil || !bytes.Equal(got, want) {
			r.Violate("std-consumer", sc, "got % x, %v; want % x", got, err, want)
		}
		r.Eval("std" + fmt.Sprint(sc))
	}
}
