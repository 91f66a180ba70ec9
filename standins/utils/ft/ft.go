// Package ft is an offline stand-in for github.com/indigo-web/utils/ft (used by repository tests only).
package ft

func Map[T, U any](fn func(T) U, in []T) []U {
	out := make([]U, len(in))
	for i, el := range in {
		out[i] = fn(el)
	}

	return out
}

type Addable interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~float32 | ~float64 | ~string
}

func Sum[T Addable](in []T) (sum T) {
	for _, el := range in {
		sum += el
	}

	return sum
}
