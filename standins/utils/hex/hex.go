// Package hex is an offline stand-in for github.com/indigo-web/utils/hex (used by repository tests only).
package hex

// Un converts an ASCII hex digit into its value.
func Un(char byte) byte {
	switch {
	case '0' <= char && char <= '9':
		return char - '0'
	case 'a' <= char && char <= 'f':
		return char - 'a' + 10
	case 'A' <= char && char <= 'F':
		return char - 'A' + 10
	}

	return 0
}
