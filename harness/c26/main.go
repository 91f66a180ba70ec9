//go:build go1.22

// Monitor of C26: the protocol tables over their whole domains against independent reference tables.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"net/http"
	"strings"
	"sync"

	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/method"
	"github.com/indigo-web/indigo/http/mime"
	"github.com/indigo-web/indigo/http/proto"
	"github.com/indigo-web/indigo/http/status"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
)

// constants, by their names
var codeNames = []struct {
	name string
	got  status.Code
	want int
}{
	{"Continue", status.Continue, 100},
	{"SwitchingProtocols", status.SwitchingProtocols, 101},
	{"Processing", status.Processing, 102},
	{"EarlyHints", status.EarlyHints, 103},
	{"OK", status.OK, 200},
	{"Created", status.Created, 201},
	{"Accepted", status.Accepted, 202},
	{"NonAuthoritativeInfo", status.NonAuthoritativeInfo, 203},
	{"NoContent", status.NoContent, 204},
	{"ResetContent", status.ResetContent, 205},
	{"PartialContent", status.PartialContent, 206},
	{"MultiStatus", status.MultiStatus, 207},
	{"AlreadyReported", status.AlreadyReported, 208},
	{"IMUsed", status.IMUsed, 226},
	{"MultipleChoices", status.MultipleChoices, 300},
	{"MovedPermanently", status.MovedPermanently, 301},
	{"Found", status.Found, 302},
	{"SeeOther", status.SeeOther, 303},
	{"NotModified", status.NotModified, 304},
	{"UseProxy", status.UseProxy, 305},
	{"TemporaryRedirect", status.TemporaryRedirect, 307},
	{"PermanentRedirect", status.PermanentRedirect, 308},
	{"BadRequest", status.BadRequest, 400},
	{"Unauthorized", status.Unauthorized, 401},
	{"PaymentRequired", status.PaymentRequired, 402},
	{"Forbidden", status.Forbidden, 403},
	{"NotFound", status.NotFound, 404},
	{"MethodNotAllowed", status.MethodNotAllowed, 405},
	{"NotAcceptable", status.NotAcceptable, 406},
	{"ProxyAuthRequired", status.ProxyAuthRequired, 407},
	{"RequestTimeout", status.RequestTimeout, 408},
	{"Conflict", status.Conflict, 409},
	{"Gone", status.Gone, 410},
	{"LengthRequired", status.LengthRequired, 411},
	{"PreconditionFailed", status.PreconditionFailed, 412},
	{"RequestEntityTooLarge", status.RequestEntityTooLarge, 413},
	{"RequestURITooLong", status.RequestURITooLong, 414},
	{"UnsupportedMediaType", status.UnsupportedMediaType, 415},
	{"RequestedRangeNotSatisfiable", status.RequestedRangeNotSatisfiable, 416},
	{"ExpectationFailed", status.ExpectationFailed, 417},
	{"Teapot", status.Teapot, 418},
	{"MisdirectedRequest", status.MisdirectedRequest, 421},
	{"UnprocessableEntity", status.UnprocessableEntity, 422},
	{"Locked", status.Locked, 423},
	{"FailedDependency", status.FailedDependency, 424},
	{"TooEarly", status.TooEarly, 425},
	{"UpgradeRequired", status.UpgradeRequired, 426},
	{"PreconditionRequired", status.PreconditionRequired, 428},
	{"TooManyRequests", status.TooManyRequests, 429},
	{"HeaderFieldsTooLarge", status.HeaderFieldsTooLarge, 431},
	{"CloseConnection", status.CloseConnection, 439},
	{"UnavailableForLegalReasons", status.UnavailableForLegalReasons, 451},
	{"InternalServerError", status.InternalServerError, 500},
	{"NotImplemented", status.NotImplemented, 501},
	{"BadGateway", status.BadGateway, 502},
	{"ServiceUnavailable", status.ServiceUnavailable, 503},
	{"GatewayTimeout", status.GatewayTimeout, 504},
	{"HTTPVersionNotSupported", status.HTTPVersionNotSupported, 505},
	{"VariantAlsoNegotiates", status.VariantAlsoNegotiates, 506},
	{"InsufficientStorage", status.InsufficientStorage, 507},
	{"LoopDetected", status.LoopDetected, 508},
	{"NotExtended", status.NotExtended, 510},
	{"NetworkAuthenticationRequired", status.NetworkAuthenticationRequired, 511},
}

var httpErrors = []struct {
	name string
	got  error
	want int
}{
	{"ErrConnectionTimeout", status.ErrConnectionTimeout, 408},
	{"ErrCloseConnection", status.ErrCloseConnection, 439},
	{"ErrShutdown", status.ErrShutdown, 439},
	{"ErrGracefulShutdown", status.ErrGracefulShutdown, 439},
	{"ErrBadRequest", status.ErrBadRequest, 400},
	{"ErrTooLongRequestLine", status.ErrTooLongRequestLine, 400},
	{"ErrURIDecoding", status.ErrURIDecoding, 400},
	{"ErrBadQuery", status.ErrBadQuery, 400},
	{"ErrNotFound", status.ErrNotFound, 404},
	{"ErrInternalServerError", status.ErrInternalServerError, 500},
	{"ErrNotImplemented", status.ErrNotImplemented, 501},
	{"ErrMethodNotImplemented", status.ErrMethodNotImplemented, 501},
	{"ErrMethodNotAllowed", status.ErrMethodNotAllowed, 405},
	{"ErrTooLarge", status.ErrTooLarge, 413},
	{"ErrBodyTooLarge", status.ErrBodyTooLarge, 413},
	{"ErrRequestEntityTooLarge", status.ErrRequestEntityTooLarge, 413},
	{"ErrHeaderFieldsTooLarge", status.ErrHeaderFieldsTooLarge, 431},
	{"ErrHeaderKeyTooLarge", status.ErrHeaderKeyTooLarge, 431},
	{"ErrHeaderValueTooLarge", status.ErrHeaderValueTooLarge, 431},
	{"ErrTooManyHeaders", status.ErrTooManyHeaders, 431},
	{"ErrRequestHeaderFieldsTooLarge", status.ErrRequestHeaderFieldsTooLarge, 431},
	{"ErrURITooLong", status.ErrURITooLong, 414},
	{"ErrRequestURITooLong", status.ErrRequestURITooLong, 414},
	{"ErrUnsupportedProtocol", status.ErrUnsupportedProtocol, 505},
	{"ErrHTTPVersionNotSupported", status.ErrHTTPVersionNotSupported, 505},
	{"ErrUnauthorized", status.ErrUnauthorized, 401},
	{"ErrPaymentRequired", status.ErrPaymentRequired, 402},
	{"ErrForbidden", status.ErrForbidden, 403},
	{"ErrNotAcceptable", status.ErrNotAcceptable, 406},
	{"ErrProxyAuthRequired", status.ErrProxyAuthRequired, 407},
	{"ErrRequestTimeout", status.ErrRequestTimeout, 408},
	{"ErrConflict", status.ErrConflict, 409},
	{"ErrGone", status.ErrGone, 410},
	{"ErrLengthRequired", status.ErrLengthRequired, 411},
	{"ErrPreconditionFailed", status.ErrPreconditionFailed, 412},
	{"ErrUnsupportedMediaType", status.ErrUnsupportedMediaType, 415},
	{"ErrUnsupportedEncoding", status.ErrUnsupportedEncoding, 415},
	{"ErrRequestedRangeNotSatisfiable", status.ErrRequestedRangeNotSatisfiable, 416},
	{"ErrExpectationFailed", status.ErrExpectationFailed, 417},
	{"ErrTeapot", status.ErrTeapot, 418},
	{"ErrMisdirectedRequest", status.ErrMisdirectedRequest, 421},
	{"ErrUnprocessableEntity", status.ErrUnprocessableEntity, 422},
	{"ErrLocked", status.ErrLocked, 423},
	{"ErrFailedDependency", status.ErrFailedDependency, 424},
	{"ErrTooEarly", status.ErrTooEarly, 425},
	{"ErrUpgradeRequired", status.ErrUpgradeRequired, 426},
	{"ErrPreconditionRequired", status.ErrPreconditionRequired, 428},
	{"ErrTooManyRequests", status.ErrTooManyRequests, 429},
	{"ErrUnavailableForLegalReasons", status.ErrUnavailableForLegalReasons, 451},
	{"ErrBadGateway", status.ErrBadGateway, 502},
	{"ErrServiceUnavailable", status.ErrServiceUnavailable, 503},
	{"ErrGatewayTimeout", status.ErrGatewayTimeout, 504},
	{"ErrVariantAlsoNegotiates", status.ErrVariantAlsoNegotiates, 506},
	{"ErrInsufficientStorage", status.ErrInsufficientStorage, 507},
	{"ErrLoopDetected", status.ErrLoopDetected, 508},
	{"ErrNotExtended", status.ErrNotExtended, 510},
	{"ErrNetworkAuthenticationRequired", status.ErrNetworkAuthenticationRequired, 511},
}

// reasons as registered with IANA; those of net/http are checked additionally
var reasons = map[int]string{
	100: "Continue", 101: "Switching Protocols", 102: "Processing", 103: "Early Hints",
	200: "OK", 201: "Created", 202: "Accepted", 203: "Non-Authoritative Information", 204: "No Content",
	205: "Reset Content", 206: "Partial Content", 207: "Multi-Status", 208: "Already Reported", 226: "IM Used",
	300: "Multiple Choices", 301: "Moved Permanently", 302: "Found", 303: "See Other", 304: "Not Modified",
	305: "Use Proxy", 307: "Temporary Redirect", 308: "Permanent Redirect",
	400: "Bad Request", 401: "Unauthorized", 402: "Payment Required", 403: "Forbidden", 404: "Not Found",
	405: "Method Not Allowed", 406: "Not Acceptable", 407: "Proxy Authentication Required", 408: "Request Timeout",
	409: "Conflict", 410: "Gone", 411: "Length Required", 412: "Precondition Failed", 413: "Request Entity Too Large",
	414: "Request URI Too Long", 415: "Unsupported Media Type", 416: "Requested Range Not Satisfiable",
	417: "Expectation Failed", 418: "I'm a teapot", 421: "Misdirected Request", 422: "Unprocessable Entity",
	423: "Locked", 424: "Failed Dependency", 425: "Too Early", 426: "Upgrade Required", 428: "Precondition Required",
	429: "Too Many Requests", 431: "Request Header Fields Too Large", 451: "Unavailable For Legal Reasons",
	500: "Internal Server Error", 501: "Not Implemented", 502: "Bad Gateway", 503: "Service Unavailable",
	504: "Gateway Timeout", 505: "HTTP Version Not Supported", 506: "Variant Also Negotiates",
	507: "Insufficient Storage", 508: "Loop Detected", 510: "Not Extended", 511: "Network Authentication Required",
}

func statuses(r *Run) {
	r.Step("statuses")
	for _, c := range codeNames {
		r.Eval("const/" + c.name)
		r.Count("status_constants", 1)
		if int(c.got) != c.want {
			r.Violate("status-constant", c.name, "status.%s = %d, want %d", c.name, c.got, c.want)
		}
	}
	for code := 0; code <= 65535; code++ {
		r.Eval(fmt.Sprintf("code/%d", code))
		r.Count("status_codes", 1)
		r.Guard("status", code, func() {
			text, line := status.Text(status.Code(code)), status.Line(status.Code(code))
			want, ok := reasons[code]
			if !ok {
				if text != "Unknown Status Code" {
					r.Violate("unknown-code-text", code, "Text(%d) = %q for an unregistered code", code, text)
				}
				if line != "" {
					r.Violate("unknown-code-line", code, "Line(%d) = %q for an unregistered code", code, line)
				}
				return
			}
			if std := http.StatusText(code); std != want {
				panic(fmt.Sprintf("reference: %d is %q in net/http", code, std))
			}
			if text != want {
				r.Violate("status-text", code, "Text(%d) = %q, want %q", code, text, want)
			}
			if l := fmt.Sprintf("%d %s\r\n", code, want); line != l {
				r.Violate("status-line", code, "Line(%d) = %q, want %q", code, line, l)
			}
		})
	}
	r.Sample("status", status.Line(431))
	seen := map[string]bool{}
	for _, e := range httpErrors {
		r.Eval("err/" + e.name)
		r.Count("http_errors", 1)
		he, ok := e.got.(status.HTTPError)
		if !ok {
			r.Violate("error-type", e.name, "status.%s is a %T", e.name, e.got)
			continue
		}
		if int(he.Code) != e.want {
			r.Violate("error-code", e.name, "status.%s has code %d, want %d", e.name, he.Code, e.want)
		}
		if e.got.Error() == "" || e.got.Error() != he.Message || strings.ContainsAny(he.Message, "\r\n") {
			r.Violate("error-text", e.name, "status.%s has text %q, message %q", e.name, e.got.Error(), he.Message)
		}
		if he.Code != status.CloseConnection && status.Line(he.Code) == "" {
			r.Violate("error-line", e.name, "status.%s has a code without a status line: %d", e.name, he.Code)
		}
		if !errors.Is(e.got, status.HTTPError{Code: he.Code, Message: he.Message}) {
			r.Violate("error-equality", e.name, "status.%s is not equal to an error with its code and message", e.name)
		}
		seen[e.name] = true
	}
	// told apart: the two shutdown errors and the close signal
	if errors.Is(status.ErrShutdown, status.ErrGracefulShutdown) || errors.Is(status.ErrShutdown, status.ErrCloseConnection) ||
		errors.Is(status.ErrGracefulShutdown, status.ErrCloseConnection) {
		r.Violate("shutdown-errors", nil, "the shutdown errors cannot be told apart")
	}
	g := r.Rng("newerror")
	for i := 0; i < r.N(5000, 100000); i++ {
		code, msg := status.Code(g.Intn(65536)), Word(g, Token+" \x00\xff", 0, 20)
		r.Eval(fmt.Sprintf("new/%d/%s", code, msg))
		err := status.NewError(code, msg)
		he, ok := err.(status.HTTPError)
		if !ok || he.Code != code || he.Message != msg || err.Error() != msg {
			r.Violate("new-error", []any{code, msg}, "NewError(%d, %q) = %#v with text %q", code, msg, err, err.Error())
		}
		// a later error must not change an earlier one
		if other := status.NewError(code+1, msg+"x"); err.(status.HTTPError).Code != code || err.Error() != msg || errors.Is(other, err) {
			r.Violate("new-error-independent", []any{code, msg}, "errors are not independent")
		}
	}
}

var methods = []struct {
	m    method.Method
	name string
}{
	{method.GET, "GET"}, {method.HEAD, "HEAD"}, {method.POST, "POST"}, {method.PUT, "PUT"}, {method.DELETE, "DELETE"},
	{method.CONNECT, "CONNECT"}, {method.OPTIONS, "OPTIONS"}, {method.TRACE, "TRACE"}, {method.PATCH, "PATCH"},
}

func methodTables(r *Run) {
	r.Step("methods")
	byName := map[string]method.Method{}
	for i, m := range methods {
		r.Eval("method/" + m.name)
		byName[m.name] = m.m
		if got := method.Parse(m.name); got != m.m {
			r.Violate("method-parse", m.name, "Parse(%q) = %v", m.name, got)
		}
		if got := m.m.String(); got != m.name {
			r.Violate("method-string", m.name, "String() of %s = %q", m.name, got)
		}
		if i >= len(method.List) || method.List[i] != m.m || int(m.m) != i+1 {
			r.Violate("method-list", m.name, "List[%d] is not %s (value %d): %v", i, m.name, m.m, method.List)
		}
	}
	if len(method.List) != len(methods) || method.Count != len(methods) || method.Unknown != 0 {
		r.Violate("method-count", nil, "%d methods listed, Count = %d", len(method.List), method.Count)
	}
	for v := 0; v < 256; v++ {
		r.Eval(fmt.Sprintf("methodvalue/%d", v))
		r.Count("method_values", 1)
		r.Guard("method", v, func() {
			s := method.Method(v).String()
			if v >= 1 && v <= len(methods) {
				return
			}
			if _, ok := byName[s]; ok {
				r.Violate("method-string-unknown", v, "String() of the invalid method %d = %q", v, s)
			}
			if v == 0 && s != "Unknown" {
				r.Violate("method-string-unknown", v, "String() of Unknown = %q", s)
			}
		})
	}
	var mem Scratch
	var memLast string
	check := func(s string) {
		r.Eval("token/" + s)
		r.Count("method_tokens", 1)
		r.Guard("method-parse", Q(s), func() {
			if got, want := method.Parse(s), byName[s]; got != want {
				r.Violate("method-token", Q(s), "Parse(%q) = %v, want %v", s, got, want)
			}
			// a token in memory used for another one right before
			method.Parse(mem.String(memLast))
			memLast = s
			if got, want := method.Parse(mem.String(s)), byName[s]; got != want {
				r.Violate("method-token-memory", Q(s), "Parse(%q) = %v, want %v (in reused memory)", s, got, want)
			}
		})
	}
	// all tokens close to a method: every byte replaced by every other, deleted, doubled, cut, extended, swapped
	for _, m := range methods {
		for i := range m.name {
			for b := 0; b < 256; b++ {
				check(m.name[:i] + string([]byte{byte(b)}) + m.name[i+1:])
				check(m.name[:i] + string([]byte{byte(b)}) + m.name[i:])
			}
			check(m.name[:i] + m.name[i+1:])
			check(m.name[:i])
			check(m.name[i:])
			if i > 0 {
				check(m.name[:i-1] + m.name[i:i+1] + m.name[i-1:i] + m.name[i+1:])
			}
		}
		for b := 0; b < 256; b++ {
			check(m.name + string([]byte{byte(b)}))
		}
		// every upper/lower spelling
		for mask := 0; mask < 1<<len(m.name); mask++ {
			t := []byte(m.name)
			for i := range t {
				if mask>>i&1 == 1 {
					t[i] |= 0x20
				}
			}
			check(string(t))
		}
		for _, o := range methods {
			check(m.name + o.name)
			for i := 0; i <= len(m.name) && i <= len(o.name); i++ {
				check(m.name[:i] + o.name[i:])
			}
		}
	}
	Strings("GETPUOSHADLCNIRK", r.N(4, 5), check)
	for _, s := range []string{"", "Unknown", "UNKNOWN", "LINK", "UNLINK", "PROPFIND", "PURGE", "QUERY", "\x00", "Method(0)"} {
		check(s)
	}
	g := r.Rng("methods")
	for i := 0; i < r.N(200000, 3000000); i++ {
		check(Word(g, "GETPUOSHADLCNIRK", 5, 8))
	}
	// connections are served concurrently
	var wg sync.WaitGroup
	for _, m := range methods {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				bad := m.name + "X"
				if method.Parse(m.name) != m.m || method.Parse(bad) != method.Unknown || m.m.String() != m.name || status.Line(200) != "200 OK\r\n" {
					r.Violate("method-concurrent", m.name, "%s is parsed differently while others are parsed", m.name)
					return
				}
			}
		}()
	}
	wg.Wait()
	r.Count("concurrent_tokens", int64(20000*len(methods)))
	r.Sample("method", "every byte of every method replaced by every byte")
}

func protos(r *Run) {
	r.Step("protocols")
	ref := map[string]proto.Proto{"HTTP/1.0": proto.HTTP10, "HTTP/1.1": proto.HTTP11, "HTTP/2.0": proto.HTTP2}
	names := map[proto.Proto]string{proto.HTTP10: "HTTP/1.0 ", proto.HTTP11: "HTTP/1.1 ", proto.HTTP2: "HTTP/2 "}
	if len(names) != 3 || proto.Unknown != 0 || proto.HTTP1 != proto.HTTP10|proto.HTTP11 || proto.HTTP1&proto.HTTP2 != 0 ||
		proto.HTTP10&proto.HTTP11 != 0 || proto.HTTP10 == 0 || proto.HTTP11 == 0 || proto.HTTP2 == 0 {
		r.Violate("proto-values", nil, "protocol constants overlap: %d %d %d", proto.HTTP10, proto.HTTP11, proto.HTTP2)
	}
	for v := 0; v < 256; v++ {
		r.Eval(fmt.Sprintf("protovalue/%d", v))
		r.Guard("proto-string", v, func() {
			if got, want := proto.Proto(v).String(), names[proto.Proto(v)]; got != want {
				r.Violate("proto-string", v, "String() of protocol %d = %q, want %q", v, got, want)
			}
		})
	}
	for maj := 0; maj < 256; maj++ {
		for min := 0; min < 256; min++ {
			r.Eval(fmt.Sprintf("version/%d/%d", maj, min))
			r.Count("versions", 1)
			r.Guard("proto-parse", []int{maj, min}, func() {
				var want proto.Proto
				switch {
				case maj == 1 && min == 0:
					want = proto.HTTP10
				case maj == 1 && min == 1:
					want = proto.HTTP11
				case maj == 2 && min == 0:
					want = proto.HTTP2
				}
				if got := proto.Parse(uint8(maj), uint8(min)); got != want {
					r.Violate("proto-parse", []int{maj, min}, "Parse(%d, %d) = %d, want %d", maj, min, got, want)
				}
			})
		}
	}
	check := func(s string) {
		r.Eval("proto/" + s)
		r.Count("protocol_tokens", 1)
		r.Guard("proto-token", Q(s), func() {
			raw := []byte(s)
			if got, want := proto.FromBytes(raw), ref[s]; got != want {
				r.Violate("proto-token", Q(s), "FromBytes(%q) = %d, want %d", s, got, want)
			}
			if !bytes.Equal(raw, []byte(s)) {
				r.Violate("proto-token-memory", Q(s), "FromBytes(%q) changed its input to %q", s, raw)
			}
		})
	}
	for name := range ref {
		for i := range name {
			for b := 0; b < 256; b++ {
				check(name[:i] + string([]byte{byte(b)}) + name[i+1:])
				check(name[:i] + string([]byte{byte(b)}) + name[i:])
				for j := i + 1; j < len(name); j++ {
					check(name[:i] + string([]byte{byte(b)}) + name[i+1:j] + string([]byte{byte(b)}) + name[j+1:])
				}
			}
			check(name[:i] + name[i+1:])
			check(name[:i])
			check(name[i:])
		}
		check(name + " ")
		check(name + name)
	}
	for a := 0; a < 256; a++ {
		for b := 0; b < 256; b++ {
			check("HTTP/" + string([]byte{byte(a), '.', byte(b)}))
		}
	}
	for _, s := range []string{"", "HTTP/2", "HTTP/11", "http/1.1", "Http/1.1", "HTTP/1.1\r", "ICY/1.1", "HTTPS/1.1"} {
		check(s)
	}

	// upgrade tokens
	up := map[string]proto.Proto{"http/1.0": proto.HTTP10, "HTTP/1.0": proto.HTTP10, "http/1.1": proto.HTTP11,
		"HTTP/1.1": proto.HTTP11, "h2c": proto.HTTP2, "H2C": proto.HTTP2}
	g := r.Rng("upgrade")
	toks := []string{"http/1.0", "HTTP/1.0", "http/1.1", "HTTP/1.1", "h2c", "H2C", "", " ", "websocket", "http/1", "HTTP/1.",
		"http/1.2", "HTTP/2.0", "h2", "h2cc", "h2c ", "TLS/1.0", "xhttp/1.1", "http/1.1x", "IRC/6.9", "http/1.1;a", "http /1.1"}
	upgrade := func(line string) {
		r.Eval("upgrade/" + line)
		r.Count("upgrade_lists", 1)
		r.Guard("upgrade", line, func() {
			var want proto.Proto
			for _, t := range strings.Split(line, ",") {
				if p, ok := up[strings.TrimSpace(t)]; ok {
					want = p
					break
				}
			}
			if got := proto.ChooseUpgrade(line); got != want {
				r.Violate("choose-upgrade", line, "ChooseUpgrade(%q) = %d, want %d", line, got, want)
			}
		})
	}
	for _, a := range toks {
		upgrade(a)
		for _, b := range toks {
			upgrade(a + "," + b)
			upgrade(a + ", " + b)
			for _, c := range toks {
				upgrade(a + "," + b + ", " + c)
			}
		}
	}
	for i := 0; i < r.N(100000, 1000000); i++ {
		var list []string
		for n := g.Intn(8); n >= 0; n-- {
			t := Pick(g, toks)
			if Chance(g, 50) {
				t = toks[6+g.Intn(len(toks)-6)]
			}
			list = append(list, strings.Repeat(" ", g.Intn(3))+t+strings.Repeat(" ", g.Intn(3)))
		}
		upgrade(strings.Join(list, ","))
	}
}

var mimes = map[string]string{
	".avif": "image/avif", ".css": "text/css; charset=utf-8", ".gif": "image/gif", ".htm": "text/html; charset=utf-8",
	".html": "text/html; charset=utf-8", ".jpeg": "image/jpeg", ".jpg": "image/jpeg", ".js": "text/javascript; charset=utf-8",
	".json": "application/json", ".mjs": "text/javascript; charset=utf-8", ".pdf": "application/pdf", ".png": "image/png",
	".svg": "image/svg+xml", ".wasm": "application/wasm", ".webp": "image/webp", ".xml": "text/xml; charset=utf-8",
	".gz": "application/gzip", ".sql": "application/sql", ".tzif": "application/tzif", ".yaml": "application/yaml",
	".xfdf": "application/xfdf", ".zip": "application/zip", ".zlib": "application/zlib", ".zstd": "application/zstd",
	".ico": "image/vnd.microsoft.icon",
}

func mimeTable(r *Run) {
	r.Step("mime")
	for ext, want := range mimes {
		r.Eval("mime/" + ext)
		r.Count("extensions", 1)
		if got := mime.Extension[ext]; got != want {
			r.Violate("mime-extension", ext, "Extension[%q] = %q, want %q", ext, got, want)
		}
	}
	for ext, typ := range mime.Extension {
		r.Eval("mimekey/" + ext)
		slash := strings.IndexByte(typ, '/')
		if len(ext) < 2 || ext[0] != '.' || ext != strings.ToLower(ext) || slash <= 0 || slash == len(typ)-1 || strings.ContainsAny(typ, "\r\n\t") {
			r.Violate("mime-entry", ext, "malformed entry %q: %q", ext, typ)
		}
	}
	for _, c := range [][3]string{{"OctetStream", mime.OctetStream, "application/octet-stream"}, {"PlainText", mime.PlainText, "text/plain"},
		{"HTML", mime.HTML, "text/html"}, {"JSON", mime.JSON, "application/json"}} {
		r.Eval("mimeconst/" + c[0])
		if c[1] != c[2] {
			r.Violate("mime-constant", c[0], "mime.%s = %q", c[0], c[1])
		}
	}
	r.Eval("encryption")
	if encryption.Plain != 0 || encryption.TLS == encryption.Plain || encryption.Extend <= encryption.TLS {
		r.Violate("encryption-tokens", nil, "tokens %d %d %d", encryption.Plain, encryption.TLS, encryption.Extend)
	}
}

func main() {
	Main("C26", "a table entry or token; distinct by its name, value or spelling", func(r *Run) {
		statuses(r)
		methodTables(r)
		protos(r)
		mimeTable(r)
		r.Floor("status_codes", 65536)
		r.Floor("method_tokens", 100000)
		r.Floor("versions", 65536)
		r.Floor("protocol_tokens", 60000)
		r.Floor("upgrade_lists", 10000)
		r.Floor("http_errors", 50)
	})
}
