//go:build go1.22

package vsrv

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"strings"

	"github.com/indigo-web/indigo/http"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
)

// Req is a generated request together with what a server must understand of it.
type Req struct {
	Method, Path, Query, Proto string
	Headers                    [][2]string // without Content-Length
	Length                     int         // announced Content-Length
	Chunked                    bool
	Body                       []byte
	Wire                       []byte
	HeadLen                    int // length of the head on the wire
}

// Gen are the options of the generator.
type Gen struct {
	Methods   []string
	Protos    []string
	Path      string // fixed decoded path (sent verbatim)
	NoQuery   bool
	NoBody    bool
	BodyMax   int
	Chunked   int // percentage of chunked among bodies
	MaxHdrs   int
	Extra     [][2]string // additional headers
	KeepAlive bool        // never end the connection
	CRLF      bool        // only CRLF line ends
	Simple    bool        // only plain tokens in headers
	Both      bool        // chunked requests may have a Content-Length, too
	Large     bool        // long and many of everything, but within the default limits
}

var AllMethods = []string{"GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"}

const (
	pathChars  = Alnum + "-._~!$&'()*+,;=:@"
	queryChars = Alnum + "-._~!$&'()*+,;=:@/?#\"<>[]^`{|}\\\x80\xff"
	valueChars = Alnum + " !\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"
	hexUpper   = "0123456789ABCDEF"
	hexLower   = "0123456789abcdef"
)

// Escape percent-encodes a byte, with random case of the digits.
func Escape(g *rand.Rand, c byte) string {
	a, b := hexUpper, hexUpper
	if Chance(g, 50) {
		a = hexLower
	}
	if Chance(g, 50) {
		b = hexLower
	}
	return string([]byte{'%', a[c>>4], b[c&15]})
}

// GenPath returns a random decoded path and its spelling.
func GenPath(g *rand.Rand) (path, raw string) {
	p, w := []byte("/"), []byte("/")
	for n := g.Intn(Pick(g, []int{1, 4, 12, 40})); n > 0; n-- {
		var c byte
		switch k := g.Intn(10); {
		case k < 5:
			c = pathChars[g.Intn(len(pathChars))]
		case k < 7:
			c = '/'
		default:
			c = byte(g.Intn(256))
		}
		p = append(p, c)
		if (strings.IndexByte(pathChars, c) != -1 || c == '/') && !Chance(g, 12) {
			w = append(w, c)
		} else {
			w = append(w, Escape(g, c)...)
		}
	}
	return string(p), string(w)
}

// GenValue returns a header value without blanks around it.
func GenValue(g *rand.Rand) string {
	n := g.Intn(Pick(g, []int{1, 3, 12, 40}))
	b := make([]byte, n)
	for i := range b {
		switch k := g.Intn(20); {
		case k < 17:
			b[i] = valueChars[g.Intn(len(valueChars))]
		case k < 18:
			b[i] = '\t'
		default:
			b[i] = byte(0x80 + g.Intn(128))
		}
	}
	return strings.Trim(string(b), " \t")
}

var special = map[string]bool{"content-length": true, "transfer-encoding": true, "connection": true, "upgrade": true,
	"trailer": true, "content-encoding": true, "content-type": true, "host": true, "cookie": true}

var meaningful = []string{"Content-Length", "Content-Length", "Transfer-Encoding", "Transfer-Encoding", "Content-Encoding", "Content-Type", "Connection", "Upgrade", "Trailer", "Host", "Cookie"}

// GenName returns a header name that has no meaning for the server.
func GenName(g *rand.Rand) string {
	for {
		if Chance(g, 12) {
			// almost a name with a meaning
			b := []byte(RandCase(g, Pick(g, meaningful)))
			b[g.Intn(len(b))] = tchar[g.Intn(len(tchar))]
			if Chance(g, 20) {
				i := g.Intn(len(b))
				b[i] ^= 0x20
			}
			ok := !special[strings.ToLower(string(b))]
			for _, c := range b {
				ok = ok && strings.IndexByte(tchar, c) != -1
			}
			if ok {
				return string(b)
			}
		}
		n := Word(g, tchar, 1, Pick(g, []int{1, 4, 7, 10, 12, 14, 16, 17, 30}))
		if Chance(g, 60) {
			n = Word(g, Alnum+"-", 1, 20)
		}
		if !special[strings.ToLower(n)] {
			return n
		}
	}
}

// noise are headers with a meaning elsewhere, but not for this server.
var noise = [][2]string{{"X-Forwarded-Proto", "https"}, {"X-Forwarded-Proto", "http"}, {"X-Forwarded-Ssl", "on"}, {"X-Forwarded-For", "127.0.0.1"},
	{"X-Forwarded-Host", "evil.example"}, {"X-Forwarded-Port", "443"}, {"Forwarded", "for=127.0.0.1;proto=https;host=evil.example"}, {"X-Real-Ip", "127.0.0.1"},
	{"Front-End-Https", "on"}, {"X-Url-Scheme", "https"}, {"X-Scheme", "https"}, {"Upgrade-Insecure-Requests", "1"}, {"Origin", "https://evil.example"},
	{"Referer", "https://evil.example/x"}, {"Via", "1.1 proxy"}, {"X-Original-Url", "/admin"}, {"X-Rewrite-Url", "/admin"}, {"X-HTTP-Method-Override", "DELETE"},
	{"X-HTTP-Method", "PUT"}, {"X-Method-Override", "HEAD"}, {"Expect", "100-continue"}, {"TE", "trailers"}, {"TE", "chunked"}, {"Accept", "*/*"},
	{"Accept-Encoding", "gzip, deflate, br"}, {"Accept-Encoding", "identity"}, {"Accept-Language", "en"}, {"User-Agent", "curl/8.0"}, {"Keep-Alive", "timeout=5, max=1"},
	{"Proxy-Connection", "close"}, {"Proxy-Connection", "keep-alive"}, {"Cache-Control", "no-cache"}, {"Pragma", "no-cache"}, {"If-Modified-Since", "Thu, 01 Jan 1970 00:00:00 GMT"},
	{"If-None-Match", "*"}, {"If-Match", "*"}, {"If-Unmodified-Since", "Thu, 01 Jan 1970 00:00:00 GMT"}, {"Range", "bytes=0-1"}, {"If-Range", "x"},
	{"Authorization", "Basic YTpi"}, {"Max-Forwards", "0"}, {"DNT", "1"}, {"Sec-Fetch-Mode", "navigate"}, {"HTTP2-Settings", "AAMAAABkAARAAAAAAAIAAAAA"},
	{"Content-Range", "bytes 0-1/2"}, {"Content-Language", "en"}, {"Content-MD5", "x"}, {"Content-Lengt", "5"}, {"Content-Lengths", "5"}, {"Content_Length", "5"},
	{"Transfer_Encoding", "chunked"}, {"Transfer-Encodings", "chunked"}, {"Transfer-Encodin", "chunked"}, {"Content-Location", "/x"}, {"Connections", "close"}, {"Connectio", "close"}, {"Upgrad", "HTTP/1.0"}, {"Upgrades", "HTTP/1.0"},
	{"Trailers", "x"}, {"Cookie2", "$Version=1"}, {"Date", "Thu, 01 Jan 1970 00:00:00 GMT"}, {"Server", "x"}, {"Location", "/x"}, {"Set-Cookie", "a=b"}}

// Noise returns a header that has a meaning elsewhere, but not for this server.
func Noise(g *rand.Rand) (name, value string) {
	n := Pick(g, noise)
	return RandCase(g, n[0]), n[1]
}

// RandCase changes the case of letters randomly.
func RandCase(g *rand.Rand, s string) string {
	b := []byte(s)
	mode := g.Intn(4)
	for i, c := range b {
		if c|0x20 >= 'a' && c|0x20 <= 'z' {
			switch {
			case mode == 1:
				b[i] = c &^ 0x20
			case mode == 2:
				b[i] = c | 0x20
			case mode == 3 && Chance(g, 50):
				b[i] = c ^ 0x20
			}
		}
	}
	return string(b)
}

func ows(g *rand.Rand) string { return Pick(g, []string{"", " ", " ", " ", "  ", "\t", " \t ", "   "}) }

// Next generates a request.
func (o Gen) Next(g *rand.Rand) Req {
	var q Req
	methods, protos := o.Methods, o.Protos
	if methods == nil {
		methods = AllMethods
	}
	if protos == nil {
		protos = []string{"HTTP/1.1"}
	}
	q.Method, q.Proto = Pick(g, methods), Pick(g, protos)
	var w bytes.Buffer
	raw := o.Path
	q.Path = o.Path
	if raw == "" {
		q.Path, raw = GenPath(g)
	}
	if o.Large && o.Path == "" && Chance(g, 60) {
		long := Word(g, Alnum+"/-._~", 0, Pick(g, []int{300, 3000, 20000}))
		q.Path, raw = q.Path+long+"%/", raw+long+"%25/"
	}
	w.WriteString(q.Method + " " + raw)
	if !o.NoQuery && Chance(g, 40) {
		q.Query = Word(g, queryChars, 0, 20)
		if Chance(g, 20) {
			q.Query += "%" + Word(g, "0123456789abcdefABCDEFxz", 0, 2)
		}
		if o.Large {
			q.Query += Word(g, queryChars, 0, Pick(g, []int{300, 3000, 20000}))
		}
		w.WriteString("?" + q.Query)
	}
	eol := func() string {
		if o.CRLF {
			return "\r\n"
		}
		return "\r\n"
	}
	if !o.CRLF {
		switch g.Intn(4) {
		case 0:
			eol = func() string { return "\n" }
		case 1:
			eol = func() string { return Pick(g, []string{"\r\n", "\n"}) }
		}
	}
	w.WriteString(" " + q.Proto + eol())

	type line struct{ name, value string }
	var lines []line
	max := o.MaxHdrs
	if max == 0 {
		max = 8
	}
	for n := g.Intn(max + 1); n > 0; n-- {
		name, value := GenName(g), GenValue(g)
		if o.Simple {
			name, value = "X-"+Word(g, Alnum, 1, 8), Word(g, Alnum+" ", 0, 12)
			value = strings.TrimSpace(value)
		} else if Chance(g, 15) {
			name, value = Noise(g)
		} else if Chance(g, 15) {
			value = Pick(g, []string{"5", "0", "chunked", "gzip", "close", "keep-alive", "HTTP/1.0", "h2c", "text/plain"})
		}
		lines = append(lines, line{name, value})
		if Chance(g, 15) {
			lines = append(lines, line{RandCase(g, name), GenValue(g)})
		}
	}
	if Chance(g, 50) {
		lines = append(lines, line{RandCase(g, "Host"), Word(g, Alnum+".-", 1, 12)})
	}
	if Chance(g, 20) {
		lines = append(lines, line{RandCase(g, "Content-Type"), Pick(g, []string{"text/plain", "application/json", "a/b; c=d", ""})})
	}
	if Chance(g, 15) {
		lines = append(lines, line{RandCase(g, "Content-Encoding"), Pick(g, []string{"gzip", "identity", "gzip, br", "x-gzip ,deflate", "gzip;q=1", "br; a=b, gzip", "a,b,c,d,e", "\"quoted\"", "GZIP", "gzip,,br"})})
	}
	switch {
	case q.Proto == "HTTP/1.0" && o.KeepAlive:
		lines = append(lines, line{RandCase(g, "Connection"), RandCase(g, "keep-alive")})
	case Chance(g, 15):
		v := Pick(g, []string{"keep-alive", "Keep-Alive", "whatever", "x-hop,", "keep-alive, X-Hop", ",x", "", "close", "Close"})
		if !o.KeepAlive || !strings.EqualFold(v, "close") {
			lines = append(lines, line{RandCase(g, "Connection"), v})
		}
	}
	if !o.Simple && Chance(g, 3) && o.Chunked == 0 {
		lines = append(lines, line{RandCase(g, "Trailer"), "X-Trailer"})
	}
	if o.Large {
		for n, keys, values := g.Intn(Pick(g, []int{3, 28, 44 - len(lines) - len(o.Extra)})), 2500, 6500; n > 0 && keys > 90; n-- {
			l := line{"L-" + Word(g, Alnum+"-_", 0, Pick(g, []int{20, 97})), strings.Trim(Word(g, valueChars, 0, Pick(g, []int{50, 300, 6500})), " ")}
			if len(l.value) > values {
				l.value = ""
			}
			keys, values = keys-len(l.name), values-len(l.value)
			lines = append(lines, l)
		}
	}
	for _, e := range o.Extra {
		lines = append(lines, line{e[0], e[1]})
	}
	g.Shuffle(len(lines), func(i, j int) { lines[i], lines[j] = lines[j], lines[i] })

	var body []byte
	if !o.NoBody && Chance(g, 60) {
		bm := o.BodyMax
		if bm == 0 {
			bm = 300
		}
		q.Body = Bytes(g, g.Intn(Pick(g, []int{1, 5, 40, bm})+1))
		if o.Large && Chance(g, 60) {
			q.Body = Bytes(g, g.Intn(Pick(g, []int{3000, 30000, 300000, 1500000})))
		}
		if Chance(g, 40) {
			for i := range q.Body {
				q.Body[i] = "GET / HTTP/1.1\r\n\r\n0\r\n:"[i%22]
			}
		}
		if Chance(g, o.Chunked) {
			q.Chunked = true
			lines = insert(g, lines, line{RandCase(g, "Transfer-Encoding"), RandCase(g, "chunked")})
			if o.Both && Chance(g, 20) {
				lines = insert(g, lines, line{RandCase(g, "Content-Length"), fmt.Sprint(g.Intn(2 * (len(q.Body) + 1)))})
			}
			body = Chunk(g, q.Body)
			if !o.Simple && Chance(g, 12) {
				lines = insert(g, lines, line{RandCase(g, "Trailer"), "X-Trailer"})
				body = body[:len(body)-2]
				for n := g.Intn(4); n > 0; n-- {
					body = append(body, "X-Trailer: "+Word(g, Alnum, 0, 6)+"\r\n"...)
				}
				body = append(body, "\r\n"...)
			}
		} else {
			q.Length = len(q.Body)
			pad := ""
			if Chance(g, 10) {
				pad = strings.Repeat("0", 1+g.Intn(5))
			}
			lines = insert(g, lines, line{RandCase(g, "Content-Length"), fmt.Sprint(pad, q.Length)})
			body = q.Body
		}
	} else if Chance(g, 10) {
		lines = insert(g, lines, line{RandCase(g, "Content-Length"), "0"})
	}
	for _, l := range lines {
		pre, post := ows(g), ""
		if Chance(g, 20) {
			post = ows(g)
		}
		w.WriteString(l.name + ":" + pre + l.value + post + eol())
		if !strings.EqualFold(l.name, "content-length") {
			q.Headers = append(q.Headers, [2]string{l.name, l.value})
		}
	}
	w.WriteString(eol())
	q.HeadLen = w.Len()
	w.Write(body)
	q.Wire = w.Bytes()
	return q
}

func insert[T any](g *rand.Rand, list []T, v T) []T {
	i := g.Intn(len(list) + 1)
	list = append(list, v)
	copy(list[i+1:], list[i:])
	list[i] = v
	return list
}

// Chunk encodes a body with random chunk sizes and spellings.
func Chunk(g *rand.Rand, body []byte) []byte {
	var w bytes.Buffer
	max := 1 + g.Intn(Pick(g, []int{2, 20, 4000}))
	if len(body) > 20000 {
		max = 1 + g.Intn(Pick(g, []int{len(body) / 1000, 4000, 120000}))
	}
	for len(body) > 0 {
		n := 1 + g.Intn(max)
		if n > len(body) {
			n = len(body)
		}
		size := fmt.Sprintf(Pick(g, []string{"%x", "%X", "0%x", "000%X"}), n)
		w.WriteString(size + "\r\n")
		w.Write(body[:n])
		w.WriteString("\r\n")
		body = body[n:]
	}
	w.WriteString(Pick(g, []string{"0", "0", "00"}) + "\r\n\r\n")
	return w.Bytes()
}

// Snap is what a handler sees of a request; all memory is copied.
type Snap struct {
	Method, Path, Query, Proto string
	Headers                    [][2]string
	Length                     int
	Type, Connection, Upgrade  string
	Transfer, Content          []string
	Chunked, Trailer, Identity bool
	Params                     [][2]string
	Enc                        int
	EnvErr, AliasFrom, Allowed string
	Remote                     string
	Hijacked, CtxFresh         bool
	Mode                       string
	Body                       []byte
	BodyErr                    string
}

// Take copies everything visible.
func Take(q *http.Request) Snap {
	s := Snap{
		Method: q.Method.String(), Path: strings.Clone(q.Path), Query: string(q.Query.Raw()),
		Proto: strings.TrimSuffix(q.Proto.String(), " "), Length: q.ContentLength, Type: strings.Clone(q.ContentType),
		Connection: strings.Clone(q.Connection), Upgrade: strings.TrimSuffix(q.Upgrade.String(), " "),
		Chunked: q.Encoding.Chunked, Trailer: q.Encoding.HasTrailer, Identity: q.Encoding.Identity(), Enc: int(q.Env.Encryption),
		AliasFrom: strings.Clone(q.Env.AliasFrom), Allowed: strings.Clone(q.Env.AllowedMethods), Hijacked: q.WasHijacked(),
	}
	for _, p := range q.Headers.Unwrap() {
		s.Headers = append(s.Headers, [2]string{strings.Clone(p.Key), strings.Clone(p.Value)})
	}
	for _, p := range q.Params.Unwrap() {
		s.Params = append(s.Params, [2]string{strings.Clone(p.Key), strings.Clone(p.Value)})
	}
	for _, t := range q.Encoding.Transfer {
		s.Transfer = append(s.Transfer, strings.Clone(t))
	}
	for _, t := range q.Encoding.Content {
		s.Content = append(s.Content, strings.Clone(t))
	}
	if q.Env.Error != nil {
		s.EnvErr = q.Env.Error.Error()
	}
	if q.Remote != nil {
		s.Remote = q.Remote.String()
	}
	if q.Ctx != nil {
		_, has := q.Ctx.Deadline()
		s.CtxFresh = !has && q.Ctx.Err() == nil && q.Ctx.Value(CtxKey{}) == nil
	}
	return s
}

// CtxKey is the key under which handlers of the monitors leave traces in a context.
type CtxKey struct{}

// BodyModes are the ways a handler can read a body completely.
var BodyModes = []string{"bytes", "string", "callback", "retrieve", "read1", "read7", "readall", "read4096"}

// ReadBody reads the body completely in the given way.
func ReadBody(q *http.Request, mode string) (body []byte, err error) {
	switch mode {
	case "bytes":
		var b []byte
		b, err = q.Body.Bytes()
		body = append(body, b...)
	case "string":
		var s string
		s, err = q.Body.String()
		body = append(body, s...)
	case "callback":
		err = q.Body.Callback(func(b []byte) error {
			if len(b) == 0 {
				return fmt.Errorf("empty piece given to the callback")
			}
			body = append(body, b...)
			return nil
		})
	case "retrieve":
		for {
			var b []byte
			b, err = q.Body.Retrieve()
			body = append(body, b...)
			if err != nil {
				break
			}
		}
		if err == io.EOF {
			err = nil
		}
	case "read1", "read7", "read4096":
		n := map[string]int{"read1": 1, "read7": 7, "read4096": 4096}[mode]
		buf := make([]byte, n)
		for zero := 0; ; {
			var k int
			k, err = q.Body.Read(buf)
			body = append(body, buf[:k]...)
			if err != nil {
				break
			}
			if k == 0 {
				if zero++; zero > 1000 {
					panic(Stop{Kind: "empty-reads", Detail: "body reads return neither data nor an error"})
				}
			} else {
				zero = 0
			}
		}
		if err == io.EOF {
			err = nil
		}
	case "readall":
		body, err = io.ReadAll(q.Body)
	case "none", "":
	default:
		if strings.HasPrefix(mode, "partial") {
			var n int
			fmt.Sscanf(mode, "partial%d", &n)
			buf := make([]byte, n)
			for len(body) < n && err == nil {
				var k int
				k, err = q.Body.Read(buf[:n-len(body)])
				body = append(body, buf[:k]...)
			}
			if err == io.EOF {
				err = nil
			}
			break
		}
		if mode == "one-piece" {
			var b []byte
			b, err = q.Body.Retrieve()
			body = append(body, b...)
			if err == io.EOF {
				err = nil
			}
			break
		}
		panic("unknown body mode " + mode)
	}
	return body, err
}
