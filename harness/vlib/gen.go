//go:build go1.22

package vlib

import "math/rand"

// Pick returns a random element.
func Pick[T any](g *rand.Rand, list []T) T { return list[g.Intn(len(list))] }

// Chance is true in p of 100 cases.
func Chance(g *rand.Rand, p int) bool { return g.Intn(100) < p }

// Word returns a random string of the alphabet.
func Word(g *rand.Rand, alphabet string, min, max int) string {
	n := min
	if max > min {
		n += g.Intn(max - min + 1)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = alphabet[g.Intn(len(alphabet))]
	}
	return string(b)
}

// Bytes returns random bytes.
func Bytes(g *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g.Intn(256))
	}
	return b
}

// Strings calls f with every string over the alphabet with length up to n.
func Strings(alphabet string, n int, f func(string)) {
	buf := make([]byte, 0, n)
	var rec func()
	rec = func() {
		f(string(buf))
		if len(buf) == n {
			return
		}
		for i := 0; i < len(alphabet); i++ {
			buf = append(buf, alphabet[i])
			rec()
			buf = buf[:len(buf)-1]
		}
	}
	rec()
}

const (
	Lower  = "abcdefghijklmnopqrstuvwxyz"
	Upper  = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	Digits = "0123456789"
	Alnum  = Lower + Upper + Digits
	Token  = Alnum + "-_"
)
