// Package chunkedbody is an offline stand-in for github.com/indigo-web/chunkedbody v0.1.0 (not in the
// module cache). It is a streaming decoder of the chunked transfer coding (RFC 9112, 7.1) with
// upstream's interface: Parse consumes a piece of the stream and returns a piece of decoded data (a
// subslice of the input), the rest of the input that was not looked at yet, and io.EOF, once the last
// chunk (and the trailer section) is over. The parser may be reused after io.EOF.
package chunkedbody

import (
	"bytes"
	"errors"
	"io"
)

var (
	ErrBadRequest = errors.New("bad chunked body")
	ErrTooLarge   = errors.New("chunk is too large")
)

type Settings struct {
	// MaxChunkSize is the maximal size of a single chunk
	MaxChunkSize int64
}

func DefaultSettings() Settings {
	return Settings{
		MaxChunkSize: 128 * 1024,
	}
}

type state uint8

const (
	eLength1 state = iota
	eLength
	eExtension
	eLengthLF
	eBody
	eBodyCR
	eBodyLF
	eLastCR
	eLastLF
	eTrailerLineBegin
	eTrailerLine
	eTrailerEndLF
)

type Parser struct {
	settings Settings
	state    state
	length   int64
}

func NewParser(settings Settings) *Parser {
	return &Parser{settings: settings}
}

func (p *Parser) Parse(data []byte, trailer bool) (chunk, extra []byte, err error) {
	for i := 0; i < len(data); {
		c := data[i]

		switch p.state {
		case eLength1, eLength:
			if digit, ok := unhex(c); ok {
				p.length = p.length<<4 | int64(digit)
				if p.length > p.settings.MaxChunkSize {
					return nil, nil, ErrTooLarge
				}
				p.state = eLength
				i++
				continue
			}

			if p.state == eLength1 {
				return nil, nil, ErrBadRequest
			}

			switch c {
			case '\r':
				p.state = eLengthLF
			case '\n':
				p.lengthDone(trailer)
			case ';', ' ', '\t':
				p.state = eExtension
			default:
				return nil, nil, ErrBadRequest
			}
			i++
		case eExtension:
			lf := bytes.IndexByte(data[i:], '\n')
			if lf == -1 {
				return nil, nil, nil
			}
			i += lf + 1
			p.lengthDone(trailer)
		case eLengthLF:
			if c != '\n' {
				return nil, nil, ErrBadRequest
			}
			i++
			p.lengthDone(trailer)
		case eBody:
			piece := data[i:]
			if int64(len(piece)) >= p.length {
				piece = piece[:p.length]
				p.state = eBodyCR
			}
			p.length -= int64(len(piece))

			return piece, data[i+len(piece):], nil
		case eBodyCR:
			switch c {
			case '\r':
				p.state = eBodyLF
			case '\n':
				p.state = eLength1
			default:
				return nil, nil, ErrBadRequest
			}
			i++
		case eBodyLF:
			if c != '\n' {
				return nil, nil, ErrBadRequest
			}
			p.state = eLength1
			i++
		case eLastCR:
			switch c {
			case '\r':
				p.state = eLastLF
				i++
			case '\n':
				p.reset()
				return nil, data[i+1:], io.EOF
			default:
				return nil, nil, ErrBadRequest
			}
		case eLastLF, eTrailerEndLF:
			if c != '\n' {
				return nil, nil, ErrBadRequest
			}
			p.reset()
			return nil, data[i+1:], io.EOF
		case eTrailerLineBegin:
			switch c {
			case '\r':
				p.state = eTrailerEndLF
				i++
			case '\n':
				p.reset()
				return nil, data[i+1:], io.EOF
			default:
				p.state = eTrailerLine
			}
		case eTrailerLine:
			lf := bytes.IndexByte(data[i:], '\n')
			if lf == -1 {
				return nil, nil, nil
			}
			i += lf + 1
			p.state = eTrailerLineBegin
		}
	}

	return nil, nil, nil
}

func (p *Parser) lengthDone(trailer bool) {
	switch {
	case p.length > 0:
		p.state = eBody
	case trailer:
		p.state = eTrailerLineBegin
	default:
		p.state = eLastCR
	}
}

func (p *Parser) reset() {
	p.state = eLength1
	p.length = 0
}

func unhex(c byte) (byte, bool) {
	switch {
	case '0' <= c && c <= '9':
		return c - '0', true
	case 'a' <= c && c <= 'f':
		return c - 'a' + 10, true
	case 'A' <= c && c <= 'F':
		return c - 'A' + 10, true
	}

	return 0, false
}
