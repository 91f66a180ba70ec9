//go:build go1.22

package vsrv

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Resp is a response as a strict client understands it.
type Resp struct {
	Proto      string
	Code       int
	Reason     string
	Headers    [][2]string
	Body       []byte
	Framing    string // none, length, chunked, close
	Chunks     []int
	UntilClose bool
}

// Get returns the values of a header.
func (r Resp) Get(name string) (vals []string) {
	for _, h := range r.Headers {
		if strings.EqualFold(h[0], name) {
			vals = append(vals, h[1])
		}
	}
	return vals
}

// Canon is a text that doesn't depend on the order of different headers.
func (r Resp) Canon() string {
	hs := make([]string, 0, len(r.Headers))
	for _, h := range r.Headers {
		hs = append(hs, strings.ToLower(h[0])+": "+h[1])
	}
	sort.Strings(hs)
	return fmt.Sprintf("%s %d %s\n%s\n%s %q", r.Proto, r.Code, r.Reason, strings.Join(hs, "\n"), r.Framing, r.Body)
}

const tchar = "!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

// ParseResponse decodes one response from the beginning of b. head: it answers a HEAD request.
func ParseResponse(b []byte, head bool) (r Resp, rest []byte, err error) {
	line, b, ok := cutLine(b)
	if !ok {
		return r, nil, fmt.Errorf("incomplete status line %q", clip(line))
	}
	if len(line) < 13 || !strings.HasPrefix(line, "HTTP/1.") || (line[7] != '0' && line[7] != '1') || line[8] != ' ' || line[12] != ' ' {
		return r, nil, fmt.Errorf("malformed status line %q", clip(line))
	}
	r.Proto = line[:8]
	if r.Code, err = strconv.Atoi(line[9:12]); err != nil || r.Code < 100 {
		return r, nil, fmt.Errorf("malformed status code in %q", clip(line))
	}
	r.Reason = line[13:]
	for i := 0; i < len(r.Reason); i++ {
		if r.Reason[i] < ' ' && r.Reason[i] != '\t' {
			return r, nil, fmt.Errorf("control byte in reason %q", r.Reason)
		}
	}
	var cl, te []string
	for {
		line, b, ok = cutLine(b)
		if !ok {
			return r, nil, fmt.Errorf("incomplete headers after %q", clip(line))
		}
		if line == "" {
			break
		}
		colon := strings.IndexByte(line, ':')
		if colon <= 0 {
			return r, nil, fmt.Errorf("malformed header %q", clip(line))
		}
		name, value := line[:colon], strings.Trim(line[colon+1:], " \t")
		for i := 0; i < len(name); i++ {
			if strings.IndexByte(tchar, name[i]) == -1 {
				return r, nil, fmt.Errorf("malformed header name %q", clip(line))
			}
		}
		for i := 0; i < len(value); i++ {
			if (value[i] < ' ' && value[i] != '\t') || value[i] == 0x7f {
				return r, nil, fmt.Errorf("control byte in header %q", clip(line))
			}
		}
		r.Headers = append(r.Headers, [2]string{name, value})
		switch strings.ToLower(name) {
		case "content-length":
			cl = append(cl, value)
		case "transfer-encoding":
			te = append(te, value)
		}
	}
	if len(cl) > 1 || len(te) > 1 || (len(cl) > 0 && len(te) > 0) {
		return r, nil, fmt.Errorf("ambiguous framing: lengths %q, transfer encodings %q", cl, te)
	}
	bodiless := r.Code < 200 || r.Code == 204 || r.Code == 304
	if r.Code < 200 || r.Code == 204 {
		if len(cl) > 0 || len(te) > 0 {
			return r, nil, fmt.Errorf("framing headers in a %d response", r.Code)
		}
	}
	n := -1
	if len(cl) > 0 {
		for i := 0; i < len(cl[0]); i++ {
			if cl[0][i] < '0' || cl[0][i] > '9' {
				return r, nil, fmt.Errorf("malformed content length %q", cl[0])
			}
		}
		if n, err = strconv.Atoi(cl[0]); err != nil {
			return r, nil, fmt.Errorf("malformed content length %q", cl[0])
		}
	}
	if len(te) > 0 && !strings.EqualFold(te[0], "chunked") {
		return r, nil, fmt.Errorf("unexpected transfer encoding %q", te[0])
	}
	if len(te) > 0 && r.Proto == "HTTP/1.0" {
		return r, nil, fmt.Errorf("transfer encoding in a HTTP/1.0 response")
	}
	switch {
	case head || bodiless:
		r.Framing = "none"
		return r, b, nil
	case len(te) > 0:
		r.Framing = "chunked"
		for {
			line, b, ok = cutLine(b)
			if !ok {
				return r, nil, fmt.Errorf("incomplete chunk size %q", clip(line))
			}
			size, err := strconv.ParseUint(line, 16, 32)
			if err != nil {
				return r, nil, fmt.Errorf("malformed chunk size %q", clip(line))
			}
			if uint64(len(b)) < size+2 {
				return r, nil, fmt.Errorf("incomplete chunk: %d of %d bytes", len(b), size)
			}
			if b[size] != '\r' || b[size+1] != '\n' {
				return r, nil, fmt.Errorf("chunk of %d bytes not terminated: %q", size, clip(string(b[size:])))
			}
			if size == 0 {
				return r, b[2:], nil
			}
			r.Chunks = append(r.Chunks, int(size))
			r.Body = append(r.Body, b[:size]...)
			b = b[size+2:]
		}
	case n >= 0:
		r.Framing = "length"
		if len(b) < n {
			return r, nil, fmt.Errorf("incomplete body: %d of %d bytes", len(b), n)
		}
		r.Body = append(r.Body, b[:n]...)
		return r, b[n:], nil
	default:
		r.Framing, r.UntilClose = "close", true
		r.Body = append(r.Body, b...)
		return r, nil, nil
	}
}

// ParseAll decodes a sequence of final responses (1xx are reported too, but don't consume a method).
func ParseAll(b []byte, methods []string) (rs []Resp, err error) {
	i := 0
	for len(b) > 0 {
		head := i < len(methods) && methods[i] == "HEAD"
		r, rest, err := ParseResponse(b, head)
		if err != nil {
			return rs, fmt.Errorf("response %d: %w", len(rs), err)
		}
		if r.Code >= 200 {
			i++
		}
		rs = append(rs, r)
		b = rest
	}
	return rs, nil
}

func cutLine(b []byte) (string, []byte, bool) {
	i := bytes.Index(b, []byte("\r\n"))
	if i == -1 {
		return string(b), nil, false
	}
	if j := bytes.IndexByte(b[:i], '\n'); j != -1 {
		return string(b[:i]), nil, false
	}
	return string(b[:i]), b[i+2:], true
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}
