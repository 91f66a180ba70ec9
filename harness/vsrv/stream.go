//go:build go1.22

package vsrv

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"syscall"

	"github.com/indigo-web/indigo/http/status"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
)

// ErrStream is the failure of scripted streams.
var ErrStream = errors.New("the stream fails")

// Failures are the errors a failing stream may end with.
var Failures = []error{ErrStream, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer, fmt.Errorf("wrapped: %w", io.EOF),
	os.ErrDeadlineExceeded, os.ErrClosed, os.ErrPermission, os.ErrNotExist, net.ErrClosed, context.Canceled, context.DeadlineExceeded, bufio.ErrTooLong,
	syscall.ECONNRESET, syscall.EPIPE, syscall.EAGAIN, &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}, errors.New("EOF"),
	status.ErrBadRequest, status.ErrNotFound, status.ErrCloseConnection, status.ErrInternalServerError}

// Stream is a reader with a scripted read pattern that records how it is used.
type Stream struct {
	Data            []byte
	Sizes           []int // sizes of successive reads (0: empty read), repeated; nil: as much as asked
	Err             error // what it fails with (default: ErrStream)
	Fail            int   // fails after that many bytes; -1: never
	WithErr         bool  // the last data comes together with the error
	pos, nth        int
	Ended           bool // returned its error
	Reads           int
	After           int // reads after the end
	Closes          int
	ReadsAfterClose int
	OnClose         func()
	idle            int
}

func (s *Stream) Read(p []byte) (int, error) {
	s.Reads++
	if s.Closes > 0 {
		s.ReadsAfterClose++
	}
	if s.Ended {
		s.After++
		if s.After > 200 {
			panic(Stop{Kind: "endless-reads", Detail: "the ended stream is read again and again"})
		}
	}
	limit, err := len(s.Data), io.EOF
	if s.Fail >= 0 && s.Fail <= len(s.Data) {
		if limit, err = s.Fail, s.Err; err == nil {
			err = ErrStream
		}
	}
	left := limit - s.pos
	if left <= 0 {
		s.Ended = true
		return 0, err
	}
	n := len(p)
	if len(s.Sizes) > 0 {
		k := s.Sizes[s.nth%len(s.Sizes)]
		s.nth++
		if k < n {
			n = k
		}
	}
	if n > left {
		n = left
	}
	copy(p, s.Data[s.pos:s.pos+n])
	s.pos += n
	if s.pos == limit && s.WithErr && n > 0 {
		s.Ended = true
		return n, err
	}
	return n, nil
}

// ClosableStream is a stream with a Close method.
type ClosableStream struct{ *Stream }

func (c ClosableStream) Close() error {
	c.Closes++
	if c.OnClose != nil {
		c.OnClose()
	}
	if c.pos%2 == 1 {
		return ErrStream // nothing depends on it
	}
	return nil
}

// GenStream makes a stream of the data with a random read pattern.
func GenStream(g *rand.Rand, data []byte) *Stream {
	s := &Stream{Data: data, Fail: -1, WithErr: Chance(g, 50), Err: Pick(g, Failures)}
	for n := g.Intn(6); n > 0; n-- {
		s.Sizes = append(s.Sizes, g.Intn(Pick(g, []int{2, 6, 40, 5000})))
	}
	if len(s.Sizes) > 0 {
		s.Sizes = append(s.Sizes, 1+g.Intn(Pick(g, []int{2, 40, 5000})))
	}
	return s
}
