// Package uf is an offline stand-in for github.com/indigo-web/utils/uf: copy-free conversions. They
// really are copy-free here, too, so that aliasing bugs of the code under test stay observable.
package uf

import "unsafe"

// B2S converts a byte slice to a string without copying.
func B2S(b []byte) string {
	return unsafe.String(unsafe.SliceData(b), len(b))
}

// S2B converts a string to a byte slice without copying.
func S2B(str string) []byte {
	return unsafe.Slice(unsafe.StringData(str), len(str))
}
