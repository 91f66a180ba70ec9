//go:build go1.22

package vlib

import "unsafe"

// Scratch hands out strings that live in one reused memory, as those made of a connection's buffers do: a string is
// only valid until the next one is made.
type Scratch struct{ mem []byte }

func (s *Scratch) String(v string) string {
	s.mem = append(s.mem[:0], v...)
	return unsafe.String(unsafe.SliceData(s.mem), len(v))
}
