// Package strcomp is an offline stand-in for github.com/indigo-web/utils/strcomp.
package strcomp

// EqualFold compares two strings ignoring the case of ASCII letters.
func EqualFold(a, b string) bool {
	if len(a) != len(b) {
		return false
	}

	for i := 0; i < len(a); i++ {
		if lower(a[i]) != lower(b[i]) {
			return false
		}
	}

	return true
}

func lower(c byte) byte {
	if 'A' <= c && c <= 'Z' {
		return c | 0x20
	}

	return c
}
