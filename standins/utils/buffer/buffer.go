// Package buffer is an offline stand-in for github.com/indigo-web/utils/buffer v0.6.2 (not in the
// module cache). A Buffer stores consecutive segments in one growable, bounded piece of memory.
// Segments returned by Finish alias that memory: Clear makes it reusable, exactly as upstream, so
// that aliasing bugs of the code under test stay observable.
package buffer

type Buffer struct {
	memory  []byte
	begin   int
	maxSize int
}

func New(initialSize, maxSize int) *Buffer {
	return &Buffer{
		memory:  make([]byte, 0, initialSize),
		maxSize: maxSize,
	}
}

// Append adds data to the current segment. Returns false, storing nothing, if the limit is exceeded.
func (b *Buffer) Append(elements []byte) (ok bool) {
	if len(b.memory)+len(elements) > b.maxSize {
		return false
	}

	b.memory = append(b.memory, elements...)

	return true
}

// AppendByte does the same as Append, but with a single byte.
func (b *Buffer) AppendByte(c byte) (ok bool) {
	if len(b.memory)+1 > b.maxSize {
		return false
	}

	b.memory = append(b.memory, c)

	return true
}

// SegmentLength returns the length of the unfinished segment.
func (b *Buffer) SegmentLength() int {
	return len(b.memory) - b.begin
}

// Preview returns the unfinished segment without finishing it.
func (b *Buffer) Preview() []byte {
	return b.memory[b.begin:]
}

// Trunc drops the last n bytes of the unfinished segment.
func (b *Buffer) Trunc(n int) {
	if seglen := b.SegmentLength(); n > seglen {
		n = seglen
	}

	b.memory = b.memory[:len(b.memory)-n]
}

// Discard drops the unfinished segment, leaving n bytes of it.
func (b *Buffer) Discard(n int) {
	b.memory = b.memory[:b.begin+n]
}

// Finish completes the current segment and returns it.
func (b *Buffer) Finish() []byte {
	segment := b.memory[b.begin:]
	b.begin = len(b.memory)

	return segment
}

// Clear forgets all the segments. The memory is reused.
func (b *Buffer) Clear() {
	b.begin = 0
	b.memory = b.memory[:0]
}
