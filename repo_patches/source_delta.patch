From fce391cce3a6de422151ea73987a6fee627f550c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:53 +0000
Subject: [PATCH 01/63] fix: do not panic on an empty protocol in the request
 line

---
 internal/protocol/http1/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 2845f54..6dc10b6 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -154,7 +154,7 @@ path:
 		}
 
 		reqPath, reqProto := pathAndProto[:sp], pathAndProto[sp+1:]
-		if reqProto[len(reqProto)-1] == '\r' {
+		if len(reqProto) > 0 && reqProto[len(reqProto)-1] == '\r' {
 			reqProto = reqProto[:len(reqProto)-1]
 		}
 
-- 
2.43.0


From 4f73dfde84fcc9f6e6f3831f81c8b5170f88097e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:57 +0000
Subject: [PATCH 02/63] fix: do not panic on an empty header value terminated
 by a bare LF

---
 internal/protocol/http1/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 6dc10b6..6d09f28 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -308,7 +308,7 @@ headerValue:
 
 		data = data[lf+1:]
 		value := uf.B2S(trimPrefixSpaces(headerValueBuff.Finish()))
-		if value[len(value)-1] == '\r' {
+		if len(value) > 0 && value[len(value)-1] == '\r' {
 			value = value[:len(value)-1]
 		}
 
-- 
2.43.0


From dd630b1fce8eac3d24e23d5ede5b1ae0eef69e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:28 +0000
Subject: [PATCH 03/63] fix: reject header lines without a colon and malformed
 header names

A line break inside of a header key was either taken as a part of it, or, if the key
was split across reads, as the end of the headers section.
---
 internal/protocol/http1/parser.go | 38 ++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 6d09f28..def9a29 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -190,18 +190,24 @@ headerKey:
 			return Pending, nil, err
 		}
 
-		switch data[0] {
-		case '\n':
-			p.cleanup()
-
-			return HeadersCompleted, data[1:], nil
-		case '\r':
-			data = data[1:]
-			goto headerValueCRLFCR
+		if headerKeyBuff.SegmentLength() == 0 {
+			switch data[0] {
+			case '\n':
+				p.cleanup()
+
+				return HeadersCompleted, data[1:], nil
+			case '\r':
+				data = data[1:]
+				goto headerValueCRLFCR
+			}
 		}
 
 		colon := bytes.IndexByte(data, ':')
 		if colon == -1 {
+			if bytes.IndexByte(data, '\n') != -1 {
+				return Error, nil, status.ErrBadRequest
+			}
+
 			if !headerKeyBuff.Append(data) {
 				return Error, nil, status.ErrHeaderFieldsTooLarge
 			}
@@ -215,6 +221,10 @@ headerKey:
 		}
 
 		key := uf.B2S(headerKeyBuff.Finish())
+		if !isValidHeaderKey(key) {
+			return Error, nil, status.ErrBadRequest
+		}
+
 		p.headerKey = key
 		data = data[colon+1:]
 
@@ -419,6 +429,18 @@ func parseEncodingString(buff []string, value string, maxTokens int) (toks []str
 	return buff, chunked
 }
 
+// isValidHeaderKey tells, whether the key is not empty and contains neither whitespaces nor control
+// characters, line breaks included
+func isValidHeaderKey(key string) bool {
+	for i := 0; i < len(key); i++ {
+		if key[i] <= ' ' || key[i] == 0x7f {
+			return false
+		}
+	}
+
+	return len(key) > 0
+}
+
 func trimPrefixSpaces(b []byte) []byte {
 	for i, char := range b {
 		if char != ' ' {
-- 
2.43.0


From 32401635ff0b7f6b73b5fa7b21d6b2377f275167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:33 +0000
Subject: [PATCH 04/63] fix: enforce Headers.MaxKeyLength

---
 internal/protocol/http1/parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index def9a29..6846fb5 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -212,6 +212,10 @@ headerKey:
 				return Error, nil, status.ErrHeaderFieldsTooLarge
 			}
 
+			if headerKeyBuff.SegmentLength() > p.headersCfg.MaxKeyLength {
+				return Error, nil, status.ErrHeaderFieldsTooLarge
+			}
+
 			p.state = eHeaderKey
 			return Pending, nil, nil
 		}
@@ -220,6 +224,10 @@ headerKey:
 			return Error, nil, status.ErrHeaderFieldsTooLarge
 		}
 
+		if headerKeyBuff.SegmentLength() > p.headersCfg.MaxKeyLength {
+			return Error, nil, status.ErrHeaderFieldsTooLarge
+		}
+
 		key := uf.B2S(headerKeyBuff.Finish())
 		if !isValidHeaderKey(key) {
 			return Error, nil, status.ErrBadRequest
-- 
2.43.0


From dc33cbd1a7718c4936b1d14797b31594a28abfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:38 +0000
Subject: [PATCH 05/63] fix: strip optional whitespace around header values

---
 internal/protocol/http1/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 6846fb5..f3ebfb6 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -329,6 +329,7 @@ headerValue:
 		if len(value) > 0 && value[len(value)-1] == '\r' {
 			value = value[:len(value)-1]
 		}
+		value = strings.Trim(value, " \t")
 
 		key := p.headerKey
 		request.Headers.Add(key, value)
-- 
2.43.0


From 87362351773fb971425ab2141173c82c3cfa1cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:05 +0000
Subject: [PATCH 06/63] fix: reject malformed, overflowing and conflicting
 Content-Length values

Digits of repeated headers were concatenated, the value wrapped around silently, whitespaces
between digits and an empty value were accepted.
---
 internal/protocol/http1/parser.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index f3ebfb6..3a1b930 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -12,6 +12,7 @@ import (
 	"github.com/indigo-web/utils/buffer"
 	"github.com/indigo-web/utils/strcomp"
 	"github.com/indigo-web/utils/uf"
+	"math"
 	"strings"
 )
 
@@ -52,8 +53,11 @@ type Parser struct {
 	headersCfg      *config.Headers
 	headersNumber   int
 	contentLength   int
-	urlEncodedChar  uint8
-	state           parserState
+	// clDigits tells whether the Content-Length value being parsed has any digits, clEnded - whether
+	// there were whitespaces after them, and clPresented - whether there already was such a header
+	clDigits, clEnded, clPresented bool
+	urlEncodedChar                 uint8
+	state                          parserState
 }
 
 func NewParser(
@@ -246,6 +250,8 @@ headerKey:
 			) && cLength == encodeU64(
 			key[8]|0x20, key[9]|0x20, key[10]|0x20, key[11]|0x20, key[12]|0x20, key[13]|0x20, 0, 0,
 		) {
+			p.contentLength = 0
+			p.clDigits, p.clEnded = false, false
 			goto contentLength
 		}
 
@@ -254,7 +260,8 @@ headerKey:
 
 contentLength:
 	for i, char := range data {
-		if char == ' ' {
+		if char == ' ' || char == '\t' {
+			p.clEnded = p.clDigits
 			continue
 		}
 
@@ -263,6 +270,11 @@ contentLength:
 			goto contentLengthEnd
 		}
 
+		if p.clEnded || p.contentLength > (math.MaxInt-9)/10 {
+			return Error, nil, status.ErrBadRequest
+		}
+
+		p.clDigits = true
 		p.contentLength = p.contentLength*10 + int(char-'0')
 	}
 
@@ -274,6 +286,11 @@ contentLengthEnd:
 	// The proof is, that this code is reachable ONLY if loop has reached a non-digit
 	// ascii symbol. In case loop has finished peacefully, as no more data left, but also no
 	// character found to satisfy the exit condition, this code will never be reached
+	if !p.clDigits || (p.clPresented && request.ContentLength != p.contentLength) {
+		return Error, nil, status.ErrBadRequest
+	}
+
+	p.clPresented = true
 	request.ContentLength = p.contentLength
 
 	switch data[0] {
@@ -404,6 +421,7 @@ func (p *Parser) cleanup() {
 	p.headerKeyBuff.Clear()
 	p.headerValueBuff.Clear()
 	p.contentLength = 0
+	p.clPresented = false
 	p.encToksBuff = p.encToksBuff[:0]
 	p.contEncToksBuff = p.contEncToksBuff[:0]
 	p.state = eMethod
-- 
2.43.0


From 402a57e0c827e63b7de2e37fc6f303982fc77f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:39 +0000
Subject: [PATCH 07/63] fix: do not lose encodings of repeated headers or
 exceeding the tokens limit

In both cases the chunked coding could be silently dropped, so the body was treated as the
next request.
---
 internal/protocol/http1/parser.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 3a1b930..ab1bf0c 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -383,7 +383,13 @@ headerValue:
 			) && cEncoding == encodeU64(
 				key[8]|0x20, key[9]|0x20, key[10]|0x20, key[11]|0x20, key[12]|0x20, key[13]|0x20, key[14]|0x20, key[15]|0x20,
 			) {
-				request.Encoding.Content, _ = parseEncodingString(p.contEncToksBuff, value, cap(p.contEncToksBuff))
+				toks, _ := parseEncodingString(p.contEncToksBuff, value, cap(p.contEncToksBuff))
+				if toks == nil {
+					return Error, nil, status.ErrHeaderFieldsTooLarge
+				}
+
+				p.contEncToksBuff = toks
+				request.Encoding.Content = toks
 			}
 		case 17:
 			if cTransfer == encodeU64(
@@ -391,9 +397,14 @@ headerValue:
 			) && cEncodin == encodeU64(
 				key[8]|0x20, key[9]|0x20, key[10]|0x20, key[11]|0x20, key[12]|0x20, key[13]|0x20, key[14]|0x20, key[15]|0x20,
 			) && key[16]|0x20 == 'g' {
-				request.Encoding.Transfer, request.Encoding.Chunked = parseEncodingString(
-					p.encToksBuff, value, cap(p.encToksBuff),
-				)
+				toks, chunked := parseEncodingString(p.encToksBuff, value, cap(p.encToksBuff))
+				if toks == nil {
+					return Error, nil, status.ErrHeaderFieldsTooLarge
+				}
+
+				p.encToksBuff = toks
+				request.Encoding.Transfer = toks
+				request.Encoding.Chunked = request.Encoding.Chunked || chunked
 			}
 		}
 
-- 
2.43.0


From ed5ac27417c1b6edd28ea3dfc88ba309cb81af88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:43 +0000
Subject: [PATCH 08/63] fix: reject requests with a transfer encoding but
 without chunked

The end of such a body can't be determined, so it was treated as the next request.
---
 internal/protocol/http1/parser.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index ab1bf0c..eac68db 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -197,9 +197,7 @@ headerKey:
 		if headerKeyBuff.SegmentLength() == 0 {
 			switch data[0] {
 			case '\n':
-				p.cleanup()
-
-				return HeadersCompleted, data[1:], nil
+				return p.complete(data[1:])
 			case '\r':
 				data = data[1:]
 				goto headerValueCRLFCR
@@ -418,14 +416,24 @@ headerValueCRLFCR:
 	}
 
 	if data[0] == '\n' {
-		p.cleanup()
-
-		return HeadersCompleted, data[1:], nil
+		return p.complete(data[1:])
 	}
 
 	return Error, nil, status.ErrBadRequest
 }
 
+// complete finishes the headers section
+func (p *Parser) complete(extra []byte) (requestState, []byte, error) {
+	p.cleanup()
+
+	if encoding := p.request.Encoding; len(encoding.Transfer) > 0 && !encoding.Chunked {
+		// the end of such a body can't be determined
+		return Error, nil, status.ErrBadRequest
+	}
+
+	return HeadersCompleted, extra, nil
+}
+
 func (p *Parser) cleanup() {
 	p.headersNumber = 0
 	p.startLineBuff.Clear()
-- 
2.43.0


From e53b98665554f6da425c069fb72442158d1efbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:16 +0000
Subject: [PATCH 09/63] fix: do not return the body of a previous request

Body.Bytes() and Body.String() returned it, if the current body has been already read by
other means or is empty.
---
 internal/protocol/http1/body.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index 8854029..f9717fd 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -46,6 +46,7 @@ func (b *Body) Init(request *http.Request) {
 	}
 
 	b.eof = false
+	b.fullBodyBuff = b.fullBodyBuff[:0]
 	b.Reader.Reset()
 }
 
-- 
2.43.0


From 21765626172b134bac6f2bbdfc9db8f2c0515d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:21 +0000
Subject: [PATCH 10/63] fix: refuse too large bodies before allocating memory
 for them

A huge Content-Length made Body.Bytes() panic.
---
 internal/protocol/http1/body.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index f9717fd..7044be2 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -62,7 +62,7 @@ func (b *Body) Bytes() ([]byte, error) {
 	}
 
 	// FIXME: this barely works with applied transfer-encodings
-	if !b.isChunked && cap(b.fullBodyBuff) < b.contentLength {
+	if !b.isChunked && cap(b.fullBodyBuff) < b.contentLength && uint(b.contentLength) <= b.plain.maxBodyLen {
 		b.fullBodyBuff = make([]byte, 0, b.contentLength)
 	}
 
@@ -161,15 +161,15 @@ func (p *plainBodyReader) read() (body []byte, err error) {
 		return nil, io.EOF
 	}
 
+	if p.bytesLeft > p.maxBodyLen {
+		return nil, status.ErrBodyTooLarge
+	}
+
 	data, err := p.client.Read()
 	if err != nil {
 		return nil, err
 	}
 
-	if p.bytesLeft > p.maxBodyLen {
-		return nil, status.ErrBodyTooLarge
-	}
-
 	if dataLen := uint(len(data)); dataLen >= p.bytesLeft {
 		body, data = data[:p.bytesLeft], data[p.bytesLeft:]
 		p.client.Unread(data)
-- 
2.43.0


From 84f978d3901f6e52b93298e2e3ca81fd640f8466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:26 +0000
Subject: [PATCH 11/63] fix: do not call Body.Callback() function with no data

---
 internal/protocol/http1/body.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index 7044be2..c6a244c 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -85,15 +85,19 @@ func (b *Body) Callback(cb http.OnBodyCallback) error {
 	for {
 		data, err := b.Retrieve()
 		switch err {
-		case nil:
-		case io.EOF:
-			return cb(data)
+		case nil, io.EOF:
 		default:
 			return err
 		}
 
-		if err = cb(data); err != nil {
-			return err
+		if len(data) > 0 {
+			if cbErr := cb(data); cbErr != nil {
+				return cbErr
+			}
+		}
+
+		if err == io.EOF {
+			return nil
 		}
 	}
 }
-- 
2.43.0


From aeae684ff60b619dcf8ab65de64d2245ba876925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:31 +0000
Subject: [PATCH 12/63] fix: do not continue reading a body after an error

After a malformed or too large chunked body, the rest of the stream was skipped from an arbitrary
position, and its following bytes were treated as the next request.
---
 internal/protocol/http1/body.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index c6a244c..90ff77c 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -22,6 +22,9 @@ type Body struct {
 	contentLength int
 	fullBodyBuff  []byte
 	eof           bool
+	// err is an error met while reading the body. As the position in the stream isn't known anymore,
+	// the body must not be read further
+	err error
 }
 
 func NewBody(
@@ -46,6 +49,7 @@ func (b *Body) Init(request *http.Request) {
 	}
 
 	b.eof = false
+	b.err = nil
 	b.fullBodyBuff = b.fullBodyBuff[:0]
 	b.Reader.Reset()
 }
@@ -107,6 +111,10 @@ func (b *Body) Retrieve() ([]byte, error) {
 		return nil, io.EOF
 	}
 
+	if b.err != nil {
+		return nil, b.err
+	}
+
 	var (
 		piece []byte
 		err   error
@@ -139,8 +147,12 @@ func (b *Body) Discard() (err error) {
 }
 
 func (b *Body) checkEOF(err error) {
-	if err == io.EOF {
+	switch err {
+	case nil:
+	case io.EOF:
 		b.eof = true
+	default:
+		b.err = err
 	}
 }
 
-- 
2.43.0


From 6f204a25b2a40dc3fc7aba29748397b2d98bad90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:45 +0000
Subject: [PATCH 13/63] fix: do not report a truncated body as a complete one

---
 internal/protocol/http1/body.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index 90ff77c..797a37e 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -183,7 +183,7 @@ func (p *plainBodyReader) read() (body []byte, err error) {
 
 	data, err := p.client.Read()
 	if err != nil {
-		return nil, err
+		return nil, unexpectedEOF(err)
 	}
 
 	if dataLen := uint(len(data)); dataLen >= p.bytesLeft {
@@ -223,7 +223,7 @@ func (c *chunkedBodyReader) read() (body []byte, err error) {
 	client := c.client
 	data, err := client.Read()
 	if err != nil {
-		return nil, err
+		return nil, unexpectedEOF(err)
 	}
 
 	chunk, extra, err := c.parser.Parse(data, c.encoding.HasTrailer)
@@ -247,3 +247,12 @@ func (c *chunkedBodyReader) read() (body []byte, err error) {
 func adduint(x, y uint) (uint, bool) {
 	return x + y, math.MaxUint-x < y
 }
+
+// unexpectedEOF tells apart the end of the stream from the end of the body, which is always io.EOF
+func unexpectedEOF(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+
+	return err
+}
-- 
2.43.0


From b5b57479b5b1cb1ff206b67e0e315811e7f3037d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:02 +0000
Subject: [PATCH 14/63] fix: render a valid status line for requests with an
 unknown protocol

---
 internal/protocol/http1/suit.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/http1/suit.go b/internal/protocol/http1/suit.go
index 813717e..9d7e629 100644
--- a/internal/protocol/http1/suit.go
+++ b/internal/protocol/http1/suit.go
@@ -112,7 +112,13 @@ func (s *Suit) serve(once bool) (ok bool) {
 			// as fatal error already happened and connection will anyway be closed, we don't
 			// care about any socket errors anymore
 			resp := notNil(req, s.router.OnError(req, err))
-			_ = s.Write(req.Proto, resp)
+			version := req.Proto
+			if version == proto.Unknown {
+				// the protocol is malformed or isn't supported, however the response must still be valid
+				version = proto.HTTP11
+			}
+
+			_ = s.Write(version, resp)
 			return false
 		default:
 			panic(fmt.Sprintf("BUG: got unexpected parser state"))
-- 
2.43.0


From d57c6a83f2655c375605e2c71d31316319a1fb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:07 +0000
Subject: [PATCH 15/63] fix: name the protocol switched to in the 101 response
 and do not accumulate its headers

---
 internal/protocol/http1/suit.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/http1/suit.go b/internal/protocol/http1/suit.go
index 9d7e629..be8591a 100644
--- a/internal/protocol/http1/suit.go
+++ b/internal/protocol/http1/suit.go
@@ -80,9 +80,10 @@ func (s *Suit) serve(once bool) (ok bool) {
 				s.PreWrite(
 					req.Proto,
 					s.upgradePreResp.
+						Clear().
 						Code(status.SwitchingProtocols).
 						Header("Connection", "upgrade").
-						Header("Upgrade", trimLast(req.Proto.String())),
+						Header("Upgrade", trimLast(req.Upgrade.String())),
 				)
 				version = req.Upgrade
 			}
-- 
2.43.0


From d17daed09e9c4b1587b4e099468c16e6da29c507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:11 +0000
Subject: [PATCH 16/63] fix: respect Config.HTTP.FileBuffSize

---
 internal/protocol/http1/suit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protocol/http1/suit.go b/internal/protocol/http1/suit.go
index be8591a..1e31628 100644
--- a/internal/protocol/http1/suit.go
+++ b/internal/protocol/http1/suit.go
@@ -46,7 +46,7 @@ func Initialize(cfg config.Config, r router.Router, client tcp.Client, req *http
 
 	return New(
 		cfg, r, req, client, keyBuff, valBuff, startLineBuff,
-		respBuff, cfg.HTTP.ResponseBuffSize, cfg.Headers.Default,
+		respBuff, cfg.HTTP.FileBuffSize, cfg.Headers.Default,
 	)
 }
 
-- 
2.43.0


From b67a63697c07134a3a4af5bb74d22d7013288160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:11 +0000
Subject: [PATCH 17/63] fix: restore overridden default headers for the
 following responses

---
 internal/protocol/http1/serializer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 83f86c4..74b431a 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -81,6 +81,7 @@ func (d *Serializer) PreWrite(protocol proto.Proto, response *http.Response) {
 	d.renderResponseLine(fields)
 	d.renderHeaders(fields)
 	d.crlf()
+	d.defaultHeaders.Reset()
 }
 
 // Write writes the response, keeping in mind difference between 1.0 and 1.1 HTTP versions
@@ -412,7 +413,7 @@ func (d defaultHeaders) Exclude(key string) {
 }
 
 func (d defaultHeaders) Reset() {
-	for _, header := range d {
-		header.Excluded = false
+	for i := range d {
+		d[i].Excluded = false
 	}
 }
-- 
2.43.0


From 5d0f93631f757e9a4e942a58d492272fc2e8d4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:16 +0000
Subject: [PATCH 18/63] fix: send the custom status text

---
 internal/protocol/http1/serializer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 74b431a..8685ab1 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -131,9 +131,14 @@ func (d *Serializer) renderResponseLine(fields *response.Fields) {
 	}
 
 	// in case we have a custom response status text or unknown code, fallback to an old way
+	text := fields.Status
+	if text == "" {
+		text = status.Text(fields.Code)
+	}
+
 	d.buff = strconv.AppendInt(d.buff, int64(fields.Code), 10)
 	d.sp()
-	d.buff = append(d.buff, status.Text(fields.Code)...)
+	d.buff = append(d.buff, text...)
 	d.crlf()
 }
 
-- 
2.43.0


From 58c7c423b6a166b2ae65a4ad377b289a4495ba33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:21 +0000
Subject: [PATCH 19/63] fix: close connections when asked to also after
 attachments and with the Upgrade header

---
 internal/protocol/http1/serializer.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 8685ab1..756976d 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -95,7 +95,12 @@ func (d *Serializer) Write(
 	d.renderResponseLine(fields)
 
 	if fields.Attachment.Content() != nil {
-		return d.sendAttachment(d.request, response, d.writer)
+		err = d.sendAttachment(d.request, response, d.writer)
+		if mustClose(protocol, d.request) {
+			err = status.ErrCloseConnection
+		}
+
+		return err
 	}
 
 	d.renderHeaders(fields)
@@ -115,7 +120,7 @@ func (d *Serializer) Write(
 
 	err = d.writer.Write(d.buff)
 
-	if !isKeepAlive(protocol, d.request) && d.request.Upgrade == proto.Unknown {
+	if mustClose(protocol, d.request) {
 		err = status.ErrCloseConnection
 	}
 
@@ -364,6 +369,19 @@ func (d *Serializer) clear() {
 	d.defaultHeaders.Reset()
 }
 
+// mustClose tells whether the connection must be closed after the response
+func mustClose(protocol proto.Proto, req *http.Request) bool {
+	if isKeepAlive(protocol, req) {
+		return false
+	}
+
+	// the Connection header of a request, which was upgraded to another version of HTTP/1, tells
+	// about the upgrade, so doesn't explicitly ask to keep the connection alive
+	isUpgraded := req.Upgrade != proto.Unknown && proto.HTTP1&req.Upgrade == req.Upgrade
+
+	return !isUpgraded || strcomp.EqualFold(req.Connection, "close")
+}
+
 func isKeepAlive(protocol proto.Proto, req *http.Request) bool {
 	switch protocol {
 	case proto.HTTP10:
-- 
2.43.0


From 529b5bde50c39b47d64b0e68ac48d12b7c01b849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:26 +0000
Subject: [PATCH 20/63] fix: send cookies in responses with attachments

---
 internal/protocol/http1/serializer.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 756976d..729337d 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -104,11 +104,7 @@ func (d *Serializer) Write(
 	}
 
 	d.renderHeaders(fields)
-
-	for _, c := range fields.Cookies {
-		d.renderCookie(c)
-	}
-
+	d.renderCookies(fields.Cookies)
 	d.renderContentLength(int64(len(fields.Body)))
 	d.crlf()
 
@@ -185,6 +181,8 @@ func (d *Serializer) sendAttachment(
 		d.renderHeaders(response.TransferEncoding("chunked").Reveal())
 	}
 
+	d.renderCookies(fields.Cookies)
+
 	// now we have to send the body via plain text or chunked transfer encoding.
 	// I'm proposing to make an exception for chunked transfer encoding with a
 	// separate method that'll handle with it by its own. Maybe, even for plain-text
@@ -280,6 +278,12 @@ func (d *Serializer) renderHeader(header headers.Header) {
 	d.crlf()
 }
 
+func (d *Serializer) renderCookies(cookies []cookie.Cookie) {
+	for _, c := range cookies {
+		d.renderCookie(c)
+	}
+}
+
 func (d *Serializer) renderCookie(c cookie.Cookie) {
 	d.buff = append(d.buff, setCookie...)
 	d.buff = append(d.buff, c.Name...)
-- 
2.43.0


From b30d907b8c94ed3e3c34286c8bd5ffeec1463cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:31 +0000
Subject: [PATCH 21/63] fix: close attachments after HEAD requests and failed
 writes

---
 internal/protocol/http1/serializer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 729337d..ca3f29f 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -173,6 +173,7 @@ func (d *Serializer) sendAttachment(
 ) (err error) {
 	fields := response.Reveal()
 	size := fields.Attachment.Size()
+	defer fields.Attachment.Close()
 
 	if size > 0 {
 		d.renderHeaders(fields)
@@ -209,8 +210,6 @@ func (d *Serializer) sendAttachment(
 		err = d.writeChunkedBody(fields.Attachment.Content(), writer)
 	}
 
-	fields.Attachment.Close()
-
 	return err
 }
 
-- 
2.43.0


From f6e111c5511c2acc08b4d4cb7c37fa0da674dd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:35 +0000
Subject: [PATCH 22/63] fix: write exactly the announced number of bytes of
 attachments with known size

---
 internal/protocol/http1/serializer.go | 31 +++++++++++++++++----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index ca3f29f..036d9aa 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -205,7 +205,7 @@ func (d *Serializer) sendAttachment(
 	}
 
 	if fields.Attachment.Size() > 0 {
-		err = d.writePlainBody(fields.Attachment.Content(), writer)
+		err = d.writePlainBody(fields.Attachment.Content(), size, writer)
 	} else {
 		err = d.writeChunkedBody(fields.Attachment.Content(), writer)
 	}
@@ -213,25 +213,34 @@ func (d *Serializer) sendAttachment(
 	return err
 }
 
-func (d *Serializer) writePlainBody(r io.Reader, writer Writer) error {
+// writePlainBody writes exactly size bytes. In case there are fewer of them, the connection must be
+// closed, as the announced length can't be satisfied anymore
+func (d *Serializer) writePlainBody(r io.Reader, size int, writer Writer) error {
 	// TODO: implement checking whether r implements io.ReaderAt interface. In case it does
 	//       body may be transferred more efficiently. This requires implementing io.Writer
 	//       *http.ResponseWriter
 
-	for {
-		n, err := r.Read(d.fileBuff)
-		switch err {
-		case nil:
-		case io.EOF:
-			return nil
-		default:
-			return status.ErrCloseConnection
+	for size > 0 {
+		buff := d.fileBuff
+		if len(buff) > size {
+			buff = buff[:size]
 		}
 
-		if err = writer.Write(d.fileBuff[:n]); err != nil {
+		n, err := r.Read(buff)
+		if n > 0 {
+			if werr := writer.Write(buff[:n]); werr != nil {
+				return status.ErrCloseConnection
+			}
+
+			size -= n
+		}
+
+		if err != nil && size > 0 {
 			return status.ErrCloseConnection
 		}
 	}
+
+	return nil
 }
 
 func (d *Serializer) writeChunkedBody(r io.Reader, writer Writer) error {
-- 
2.43.0


From c58bb8f3e40c828416ebeb2c0864b1f142d39953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:58 +0000
Subject: [PATCH 23/63] fix: do not send bodies with 1xx, 204 and 304 responses

---
 internal/protocol/http1/serializer.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 036d9aa..8ee3b7b 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -105,10 +105,12 @@ func (d *Serializer) Write(
 
 	d.renderHeaders(fields)
 	d.renderCookies(fields.Cookies)
-	d.renderContentLength(int64(len(fields.Body)))
+	if hasBody(fields.Code) {
+		d.renderContentLength(int64(len(fields.Body)))
+	}
 	d.crlf()
 
-	if d.request.Method != method.HEAD {
+	if d.request.Method != method.HEAD && hasBody(fields.Code) {
 		// HEAD request responses must be similar to GET request responses, except
 		// forced lack of body, even if Content-Length is specified
 		d.buff = append(d.buff, fields.Body...)
@@ -175,7 +177,9 @@ func (d *Serializer) sendAttachment(
 	size := fields.Attachment.Size()
 	defer fields.Attachment.Close()
 
-	if size > 0 {
+	if !hasBody(fields.Code) {
+		d.renderHeaders(fields)
+	} else if size > 0 {
 		d.renderHeaders(fields)
 		d.renderContentLength(int64(size))
 	} else {
@@ -194,7 +198,7 @@ func (d *Serializer) sendAttachment(
 		return status.ErrCloseConnection
 	}
 
-	if request.Method == method.HEAD {
+	if request.Method == method.HEAD || !hasBody(fields.Code) {
 		// HEAD requests MUST NOT contain response bodies. They are just like
 		// GET request, but without response entities
 		return nil
@@ -381,6 +385,12 @@ func (d *Serializer) clear() {
 	d.defaultHeaders.Reset()
 }
 
+// hasBody tells whether a response with the code may have a body. 1xx, 204 and 304 are always
+// terminated by the end of the headers
+func hasBody(code status.Code) bool {
+	return code >= 200 && code != status.NoContent && code != status.NotModified
+}
+
 // mustClose tells whether the connection must be closed after the response
 func mustClose(protocol proto.Proto, req *http.Request) bool {
 	if isKeepAlive(protocol, req) {
-- 
2.43.0


From 0ba93319ab7c08412d391d56b116499928ab8703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:03 +0000
Subject: [PATCH 24/63] fix: do not send chunked responses to HTTP/1.0 clients

---
 internal/protocol/http1/serializer.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 8ee3b7b..bc9e327 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -12,6 +12,7 @@ import (
 	"github.com/indigo-web/utils/strcomp"
 	"io"
 	"log"
+	"math"
 	"strconv"
 	"time"
 )
@@ -95,7 +96,7 @@ func (d *Serializer) Write(
 	d.renderResponseLine(fields)
 
 	if fields.Attachment.Content() != nil {
-		err = d.sendAttachment(d.request, response, d.writer)
+		err = d.sendAttachment(protocol, d.request, response, d.writer)
 		if mustClose(protocol, d.request) {
 			err = status.ErrCloseConnection
 		}
@@ -171,13 +172,16 @@ func (d *Serializer) renderHeaders(fields *response.Fields) {
 // sendAttachment simply encapsulates all the logic related to rendering arbitrary
 // io.Reader implementations
 func (d *Serializer) sendAttachment(
-	request *http.Request, response *http.Response, writer Writer,
+	protocol proto.Proto, request *http.Request, response *http.Response, writer Writer,
 ) (err error) {
 	fields := response.Reveal()
 	size := fields.Attachment.Size()
+	// there's no chunked transfer encoding in HTTP/1.0, the end of the connection is the only way
+	// to delimit a body of unknown length
+	untilClose := size <= 0 && protocol == proto.HTTP10
 	defer fields.Attachment.Close()
 
-	if !hasBody(fields.Code) {
+	if !hasBody(fields.Code) || untilClose {
 		d.renderHeaders(fields)
 	} else if size > 0 {
 		d.renderHeaders(fields)
@@ -208,7 +212,10 @@ func (d *Serializer) sendAttachment(
 		d.fileBuff = make([]byte, d.fileBuffSize)
 	}
 
-	if fields.Attachment.Size() > 0 {
+	if untilClose {
+		_ = d.writePlainBody(fields.Attachment.Content(), math.MaxInt, writer)
+		err = status.ErrCloseConnection
+	} else if size > 0 {
 		err = d.writePlainBody(fields.Attachment.Content(), size, writer)
 	} else {
 		err = d.writeChunkedBody(fields.Attachment.Content(), writer)
-- 
2.43.0


From ae9e0ce98fc8fa440041b38d067b4c01b17eb6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:27 +0000
Subject: [PATCH 25/63] fix: clear the request line and keep the encryption
 token between requests

---
 http/request.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/http/request.go b/http/request.go
index 6a5286e..1d586e5 100644
--- a/http/request.go
+++ b/http/request.go
@@ -171,6 +171,9 @@ func (r *Request) Clear() (err error) {
 		return err
 	}
 
+	r.Method = method.Unknown
+	r.Path = ""
+	r.Proto = proto.HTTP11
 	r.Query.Set(nil)
 	r.Params.Clear()
 	r.Headers.Clear()
@@ -180,7 +183,10 @@ func (r *Request) Clear() (err error) {
 	r.Connection = ""
 	r.Upgrade = proto.Unknown
 	r.Ctx = zeroContext
-	r.Env = Environment{}
+	r.Env = Environment{
+		// belongs to the connection rather than to the request
+		Encryption: r.Env.Encryption,
+	}
 
 	return nil
 }
-- 
2.43.0


From 6b9924e5c9539ae021c256ae0834c345512d6572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:32 +0000
Subject: [PATCH 26/63] fix: do not leak file descriptors of directories

---
 http/response.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/http/response.go b/http/response.go
index ff98e56..8538538 100644
--- a/http/response.go
+++ b/http/response.go
@@ -133,9 +133,11 @@ func (r *Response) TryFile(path string) (*Response, error) {
 	stat, err := fd.Stat()
 	if err != nil {
 		// ...and if we can't get stats on it, it exists, however something in system went wrong
+		_ = fd.Close()
 		return r, status.ErrInternalServerError
 	}
 	if stat.IsDir() {
+		_ = fd.Close()
 		return r, status.ErrNotFound
 	}
 
-- 
2.43.0


From 1e5493fcfc51b01c91e253f4564889695c610b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:37 +0000
Subject: [PATCH 27/63] fix: do not override the memory of user's buffers when
 building a response

---
 http/response.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/http/response.go b/http/response.go
index 8538538..6136eab 100644
--- a/http/response.go
+++ b/http/response.go
@@ -112,7 +112,8 @@ func (r *Response) String(body string) *Response {
 // Bytes sets the response's body to passed slice WITHOUT COPYING. Changing
 // the passed slice later will affect the response by itself
 func (r *Response) Bytes(body []byte) *Response {
-	r.fields.Body = body
+	// limit the capacity, so Write will never override the memory past the slice
+	r.fields.Body = body[:len(body):len(body)]
 	return r
 }
 
@@ -176,7 +177,8 @@ func (r *Response) Cookie(cookies ...cookie.Cookie) *Response {
 // TryJSON receives a model (must be a pointer to the structure) and returns a new Response
 // object and an error
 func (r *Response) TryJSON(model any) (*Response, error) {
-	r.fields.Body = r.fields.Body[:0]
+	// the previous body may belong to the user, so it must not be overridden
+	r.fields.Body = nil
 	stream := json.ConfigDefault.BorrowStream(r)
 	stream.WriteVal(model)
 	err := stream.Flush()
-- 
2.43.0


From 61724e8a50c6213abef517b6b5af89240fecb661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:07 +0000
Subject: [PATCH 28/63] fix: escape every byte of multi-byte characters

---
 http/path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/path.go b/http/path.go
index a57c967..f767b64 100644
--- a/http/path.go
+++ b/http/path.go
@@ -10,7 +10,7 @@ func Escape(p Path) string {
 		offset int
 	)
 
-	for i := range p {
+	for i := 0; i < len(p); i++ {
 		if !isASCIIPrintable(p[i]) {
 			if buff == nil {
 				buff = allocBuff(len(p))
-- 
2.43.0


From b1dbb9a3146babd68723ad5c6e105bf08401ef68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:12 +0000
Subject: [PATCH 29/63] fix: reject escapes with non-hexadecimal digits

---
 internal/hexconv/hexconv.go   | 9 +++++++--
 internal/uridecode/decoder.go | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/hexconv/hexconv.go b/internal/hexconv/hexconv.go
index da01c66..1725632 100644
--- a/internal/hexconv/hexconv.go
+++ b/internal/hexconv/hexconv.go
@@ -25,8 +25,13 @@ var decodeTable = [256]byte{
 	'F': 0xF,
 }
 
-// Parse returns char value + 1 IF char is a valid hex, 0 otherwise.
-// So in order to treat the returned value correctly, check whether it's 0
+// Is tells whether the char is a hexadecimal digit
+func Is(char byte) bool {
+	return char == '0' || decodeTable[char] != 0
+}
+
+// Parse returns the value of a hexadecimal digit. If char isn't one, 0 is returned, so in order
+// to tell it apart from an actual zero, use Is
 func Parse(char byte) byte {
 	return decodeTable[char]
 }
diff --git a/internal/uridecode/decoder.go b/internal/uridecode/decoder.go
index afd1b4f..d4e11fa 100644
--- a/internal/uridecode/decoder.go
+++ b/internal/uridecode/decoder.go
@@ -10,7 +10,7 @@ import (
 // true form
 func Decode(src, buff []byte) ([]byte, error) {
 	for i := bytes.IndexByte(src, '%'); i != -1; i = bytes.IndexByte(src, '%') {
-		if i >= len(src)-2 {
+		if i >= len(src)-2 || !hexconv.Is(src[i+1]) || !hexconv.Is(src[i+2]) {
 			return nil, status.ErrURIDecoding
 		}
 
-- 
2.43.0


From 63ee82a895f504b2c749ab86bdcc187bb4bd91d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:37 +0000
Subject: [PATCH 30/63] fix: deep-copy strings when cloning a storage

---
 internal/keyvalue/storage.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/internal/keyvalue/storage.go b/internal/keyvalue/storage.go
index 0cff996..702ecfb 100644
--- a/internal/keyvalue/storage.go
+++ b/internal/keyvalue/storage.go
@@ -3,6 +3,7 @@ package keyvalue
 import (
 	"github.com/indigo-web/iter"
 	"github.com/indigo-web/utils/strcomp"
+	"strings"
 )
 
 type Pair struct {
@@ -148,9 +149,7 @@ func (s *Storage) Len() int {
 // it comes at cost of multiple allocations
 func (s *Storage) Clone() *Storage {
 	return &Storage{
-		pairs:      clone(s.pairs),
-		uniqueBuff: clone(s.uniqueBuff),
-		valuesBuff: clone(s.valuesBuff),
+		pairs: clonePairs(s.pairs),
 	}
 }
 
@@ -184,13 +183,19 @@ func contains(collection []string, key string) bool {
 	return false
 }
 
-func clone[T any](source []T) []T {
+// clonePairs also copies the strings, as they usually point to the memory, which is going to be re-used
+func clonePairs(source []Pair) []Pair {
 	if len(source) == 0 {
 		return nil
 	}
 
-	newSlice := make([]T, len(source))
-	copy(newSlice, source)
+	pairs := make([]Pair, len(source))
+	for i, pair := range source {
+		pairs[i] = Pair{
+			Key:   strings.Clone(pair.Key),
+			Value: strings.Clone(pair.Value),
+		}
+	}
 
-	return newSlice
+	return pairs
 }
-- 
2.43.0


From 8df22841b3d618c991b2826e40781373098ce4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:42 +0000
Subject: [PATCH 31/63] fix: decode query parameters separately and leave the
 raw query untouched

---
 http/query/internal/parser.go | 85 +++++++++++++++++------------------
 1 file changed, 41 insertions(+), 44 deletions(-)

diff --git a/http/query/internal/parser.go b/http/query/internal/parser.go
index 6182084..d3e4592 100644
--- a/http/query/internal/parser.go
+++ b/http/query/internal/parser.go
@@ -1,6 +1,7 @@
 package internal
 
 import (
+	"bytes"
 	"github.com/indigo-web/indigo/http/status"
 	"github.com/indigo-web/indigo/internal/keyvalue"
 	"github.com/indigo-web/indigo/internal/uridecode"
@@ -11,61 +12,57 @@ import (
 const defaultEmptyValueContent = "1"
 
 func Parse(data []byte, params *keyvalue.Storage) (err error) {
-	if len(data) == 0 {
-		return nil
-	}
-
-	data, err = uridecode.Decode(data, data[:0])
-	if err != nil {
-		return err
-	}
+	for len(data) > 0 {
+		var pair []byte
+		if amp := bytes.IndexByte(data, '&'); amp != -1 {
+			pair, data = data[:amp], data[amp+1:]
+		} else {
+			pair, data = data, nil
+		}
 
-	var key string
+		// the pairs must be split before they are decoded, as encoded delimiters are data
+		rawKey, rawValue, hasValue := bytes.Cut(pair, []byte{'='})
+		if hasValue && len(rawKey) == 0 {
+			return status.ErrBadQuery
+		}
 
-parseKey:
-	if len(data) == 0 {
-		return nil
-	}
+		key, err := decode(rawKey)
+		if err != nil {
+			return err
+		}
 
-	for i := range data {
-		switch data[i] {
-		case '=':
-			key = uf.B2S(data[:i])
-			if len(key) == 0 {
-				return status.ErrBadQuery
+		// ignore the fact that the value may be empty. In case there's no equal sign, we
+		// definitely know it's a flag and is supposed to be like that. However, if there's
+		// an equal mark, we cannot be sure it wasn't on purpose. So just let a user judge
+		value := defaultEmptyValueContent
+		if hasValue {
+			if value, err = decode(rawValue); err != nil {
+				return err
 			}
-
-			data = data[i+1:]
-			goto parseValue
-		case '&':
-			params.Add(uf.B2S(data[:i]), defaultEmptyValueContent)
-			data = data[i+1:]
-			goto parseKey
-		case '+':
-			data[i] = ' '
 		}
-	}
 
-	params.Add(uf.B2S(data), defaultEmptyValueContent)
+		params.Add(key, value)
+	}
 
 	return nil
+}
 
-parseValue:
-	for i := range data {
-		switch data[i] {
-		case '&':
-			// ignore the fact that the value may be empty. In case there's no equal sign, we
-			// definitely know it's a flag and is supposed to be like that. However, if there's
-			// an equal mark, we cannot be sure it wasn't on purpose. So just let a user judge
-			params.Add(key, uf.B2S(data[:i]))
-			data = data[i+1:]
-			goto parseKey
-		case '+':
-			data[i] = ' '
+// decode returns a decoded key or value. The raw one stays untouched
+func decode(raw []byte) (string, error) {
+	if bytes.IndexByte(raw, '%') == -1 && bytes.IndexByte(raw, '+') == -1 {
+		return uf.B2S(raw), nil
+	}
+
+	decoded := make([]byte, len(raw))
+	for i, char := range raw {
+		if char == '+' {
+			char = ' '
 		}
+
+		decoded[i] = char
 	}
 
-	params.Add(key, uf.B2S(data))
+	decoded, err := uridecode.Decode(decoded, decoded[:0])
 
-	return nil
+	return uf.B2S(decoded), err
 }
-- 
2.43.0


From b110d5161261a49280ac0fb5d90331c388180cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:48 +0000
Subject: [PATCH 32/63] fix: report invalid queries on every access

---
 http/query/query.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/http/query/query.go b/http/query/query.go
index 0b9ab15..ff1bf91 100644
--- a/http/query/query.go
+++ b/http/query/query.go
@@ -14,6 +14,7 @@ type Params = *keyvalue.Storage
 // by the fact that parameters won't be parsed until requested
 type Query struct {
 	parsed bool
+	err    error
 	params Params
 	raw    []byte
 }
@@ -32,6 +33,7 @@ func (q *Query) Set(raw []byte) {
 
 	if q.parsed {
 		q.parsed = false
+		q.err = nil
 		q.params.Clear()
 	}
 }
@@ -56,7 +58,11 @@ func (q *Query) Get(key string) (value string, err error) {
 
 // Unwrap returns all query parameters. If error occurred, nil parameters will be returned
 func (q *Query) Unwrap() (Params, error) {
-	return q.params, q.parse()
+	if err := q.parse(); err != nil {
+		return nil, err
+	}
+
+	return q.params, nil
 }
 
 // Raw just returns a raw value of query as it is
@@ -66,10 +72,11 @@ func (q *Query) Raw() []byte {
 
 func (q *Query) parse() error {
 	if q.parsed {
-		return nil
+		return q.err
 	}
 
 	q.parsed = true
+	q.err = internal.Parse(q.raw, q.params)
 
-	return internal.Parse(q.raw, q.params)
+	return q.err
 }
-- 
2.43.0


From 04a4b1c5e23ac52f985a285084d2d960002ac759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:51 +0000
Subject: [PATCH 33/63] fix: reject cookie pairs without an equal sign in the
 middle of the list

---
 http/cookie/jar.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/cookie/jar.go b/http/cookie/jar.go
index eadfe2f..73b4588 100644
--- a/http/cookie/jar.go
+++ b/http/cookie/jar.go
@@ -33,7 +33,7 @@ func Parse(jar Jar, data string) (err error) {
 		key := data[:eq]
 		data = data[eq+1:]
 
-		if len(key) == 0 {
+		if len(key) == 0 || strings.IndexByte(key, ';') != -1 {
 			return ErrBadCookie
 		}
 
-- 
2.43.0


From 9e6d9f188a1fbd252d2dba776fbab60e2fadebf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:57 +0000
Subject: [PATCH 34/63] fix: reason phrase of the 101 status line

---
 http/status/codes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/status/codes.go b/http/status/codes.go
index 6df0c79..774784b 100644
--- a/http/status/codes.go
+++ b/http/status/codes.go
@@ -224,7 +224,7 @@ func Line(code Code) string {
 	case Continue:
 		return "100 Continue\r\n"
 	case SwitchingProtocols:
-		return "101 Switching Protocol\r\n"
+		return "101 Switching Protocols\r\n"
 	case Processing:
 		return "102 Processing\r\n"
 	case EarlyHints:
-- 
2.43.0


From 6f2e33a25599039a8411f567960b0be9178f250b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:16 +0000
Subject: [PATCH 35/63] fix: keep Headers.CookiesPreAllocate when filling the
 config

---
 config/config.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/config/config.go b/config/config.go
index d2c8e39..44f7a91 100644
--- a/config/config.go
+++ b/config/config.go
@@ -194,8 +194,9 @@ func Fill(src Config) (new Config) {
 				Default: numOr(src.Headers.ValueSpace.Default, defaults.Headers.ValueSpace.Default),
 				Maximal: numOr(src.Headers.ValueSpace.Maximal, defaults.Headers.ValueSpace.Maximal),
 			},
-			MaxEncodingTokens: numOr(src.Headers.MaxEncodingTokens, defaults.Headers.MaxEncodingTokens),
-			Default:           mapOr(src.Headers.Default, defaults.Headers.Default),
+			MaxEncodingTokens:  numOr(src.Headers.MaxEncodingTokens, defaults.Headers.MaxEncodingTokens),
+			Default:            mapOr(src.Headers.Default, defaults.Headers.Default),
+			CookiesPreAllocate: numOr(src.Headers.CookiesPreAllocate, defaults.Headers.CookiesPreAllocate),
 		},
 		Body: Body{
 			MaxSize:            numOr(src.Body.MaxSize, defaults.Body.MaxSize),
-- 
2.43.0


From cbc8d409787836e5d89e99a259f595df8a855e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:16 +0000
Subject: [PATCH 36/63] fix: recognise IPv6 addresses

---
 internal/address/address.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/address/address.go b/internal/address/address.go
index 337e907..bd6f2a6 100644
--- a/internal/address/address.go
+++ b/internal/address/address.go
@@ -25,6 +25,17 @@ func IsIP(addr string) bool {
 }
 
 func stripPort(addr string) string {
+	if strings.HasPrefix(addr, "[") {
+		// IPv6 addresses with ports are enclosed in brackets
+		if end := strings.IndexByte(addr, ']'); end > 1 {
+			return addr[1:end]
+		}
+	}
+
+	if net.ParseIP(addr) != nil {
+		// IPv6 address without brackets can't have a port
+		return addr
+	}
 	colon := strings.IndexByte(addr, ':')
 	if colon != -1 {
 		return addr[:colon]
-- 
2.43.0


From 12e35eabda8597edd0f105ca4482c95ae6d71a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:21 +0000
Subject: [PATCH 37/63] fix: strip trailing slashes of single-character paths

---
 router/inbuilt/uri/normalize.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/router/inbuilt/uri/normalize.go b/router/inbuilt/uri/normalize.go
index 5f634fb..f9e4666 100644
--- a/router/inbuilt/uri/normalize.go
+++ b/router/inbuilt/uri/normalize.go
@@ -1,11 +1,15 @@
 package uri
 
 func Normalize(path string) string {
-	for i := len(path) - 1; i > 1; i-- {
+	for i := len(path) - 1; i > 0; i-- {
 		if path[i] != '/' {
 			return path[:i+1]
 		}
 	}
 
+	if len(path) > 1 {
+		return path[:1]
+	}
+
 	return path
 }
-- 
2.43.0


From 5268df1ab15d4c369c4a2eeb585b33c0e7a1e976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:10 +0000
Subject: [PATCH 38/63] fix: normalize the Host header of requests to virtual
 hosts

---
 router/virtual/internal/domain/normalize.go | 5 +++--
 router/virtual/virtual.go                   | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/router/virtual/internal/domain/normalize.go b/router/virtual/internal/domain/normalize.go
index 98c04f9..5aafb74 100644
--- a/router/virtual/internal/domain/normalize.go
+++ b/router/virtual/internal/domain/normalize.go
@@ -3,8 +3,9 @@ package domain
 import "strings"
 
 func Normalize(domain string) string {
-	if strings.HasPrefix(domain, "www.") {
-		domain = domain[len("www."):]
+	const www = "www."
+	if len(domain) >= len(www) && strings.EqualFold(domain[:len(www)], www) {
+		domain = domain[len(www):]
 	}
 
 	for i := len(domain) - 1; i >= 0; i-- {
diff --git a/router/virtual/virtual.go b/router/virtual/virtual.go
index 6d16820..d4ce732 100644
--- a/router/virtual/virtual.go
+++ b/router/virtual/virtual.go
@@ -114,7 +114,7 @@ func (r *runtimeRouter) getRouter(request *http.Request) (router.Router, *http.R
 		return nil, http.Code(request, status.BadRequest)
 	}
 
-	host := hosts[0]
+	host := domain.Normalize(hosts[0])
 
 	for _, virtRouter := range r.routers {
 		if strcomp.EqualFold(virtRouter.Domain, host) {
-- 
2.43.0


From 323def4f6f12958c3114766d6ba48e5e2a7681ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:16 +0000
Subject: [PATCH 39/63] fix: do not handle connections accepted after the
 server was paused or stopped

---
 internal/tcp/server.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/internal/tcp/server.go b/internal/tcp/server.go
index dd0d275..edf1210 100644
--- a/internal/tcp/server.go
+++ b/internal/tcp/server.go
@@ -18,6 +18,8 @@ type Server struct {
 	sock     net.Listener
 	onConn   OnConn
 	shutdown atomic.Bool
+	// mu makes sure no connection is handled once the server is being shut down
+	mu sync.Mutex
 }
 
 func NewServer(sock net.Listener, onConn OnConn) *Server {
@@ -41,22 +43,49 @@ func (s *Server) Start() error {
 			return err
 		}
 
-		s.wg.Add(1)
+		if !s.acquire() {
+			// the connection was accepted after the server was shut down
+			_ = conn.Close()
+			return nil
+		}
+
 		go s.connHandler(conn)
 	}
 
 	return nil
 }
 
+// acquire registers a new connection, unless the server is being shut down
+func (s *Server) acquire() bool {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	if s.shutdown.Load() {
+		return false
+	}
+
+	s.wg.Add(1)
+
+	return true
+}
+
+func (s *Server) disallow() {
+	s.mu.Lock()
+	s.shutdown.Store(true)
+	s.mu.Unlock()
+}
+
 // Stop closes the server socket, however all the clients won't be notified explicitly
 // until they try to send us anything
 func (s *Server) Stop() error {
+	s.disallow()
+
 	return s.sock.Close()
 }
 
 // Pause stops listening to new connections, however doesn't close the socket.
 func (s *Server) Pause() {
-	s.shutdown.Store(true)
+	s.disallow()
 
 	if listener, ok := s.sock.(Deadliner); ok {
 		// interrupt the listener RIGHT NOW
-- 
2.43.0


From 3792e142516199a812f16d5273f502e98391aa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:21 +0000
Subject: [PATCH 40/63] fix: use the handler of the listener a connection came
 from

---
 indi.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/indi.go b/indi.go
index 67219c4..ba02fa9 100644
--- a/indi.go
+++ b/indi.go
@@ -127,6 +127,9 @@ func (a *App) bind(r router.Router) ([]*tcp.Server, error) {
 	servers := make([]*tcp.Server, 0, len(a.sources))
 
 	for _, src := range a.sources {
+		// every handler must have its own source
+		src := src
+
 		listener, err := src.Listen("tcp", src.Addr)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 102df3ac56006bb3a03a4fea20cee59493695a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:25 +0000
Subject: [PATCH 41/63] fix: close already bound listeners if binding fails

---
 indi.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/indi.go b/indi.go
index ba02fa9..dd61e84 100644
--- a/indi.go
+++ b/indi.go
@@ -132,6 +132,9 @@ func (a *App) bind(r router.Router) ([]*tcp.Server, error) {
 
 		listener, err := src.Listen("tcp", src.Addr)
 		if err != nil {
+			// nobody is going to use already bound listeners
+			tcp.StopAll(servers)
+
 			return nil, err
 		}
 
-- 
2.43.0


From 52bc0cad5a510d53c3f9034a5268fe86f98e1b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:05 +0000
Subject: [PATCH 42/63] fix: do not block on stopping and do not leak
 goroutines of the accept loops

---
 indi.go | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/indi.go b/indi.go
index dd61e84..f0134f0 100644
--- a/indi.go
+++ b/indi.go
@@ -9,7 +9,6 @@ import (
 	"github.com/indigo-web/indigo/router/inbuilt"
 	"log"
 	"net"
-	"sync/atomic"
 
 	"github.com/indigo-web/indigo/config"
 	"github.com/indigo-web/indigo/router"
@@ -28,7 +27,7 @@ type App struct {
 func New(addr string) *App {
 	app := &App{
 		cfg:   config.Default(),
-		errCh: make(chan error),
+		errCh: make(chan error, 1),
 	}
 
 	return app.Listen(addr)
@@ -155,30 +154,37 @@ func (a *App) bind(r router.Router) ([]*tcp.Server, error) {
 }
 
 func (a *App) run(servers []*tcp.Server) error {
-	var failSilently atomic.Bool
+	failCh := make(chan error, len(servers))
 
 	for _, server := range servers {
 		go func(server *tcp.Server) {
-			err := server.Start()
-
-			if failSilently.Swap(true) {
-				return
-			}
-
-			a.errCh <- err
+			failCh <- server.Start()
 		}(server)
 	}
 
 	callIfNotNil(a.hooks.OnStart)
-	err := <-a.errCh
+
+	var err error
+
+	select {
+	case err = <-a.errCh:
+	case err = <-failCh:
+	}
+
 	if err == status.ErrGracefulShutdown {
 		// stop listening to new clients and process till the end all the old ones
 		tcp.PauseAll(servers)
 	}
 
 	tcp.StopAll(servers)
-	callIfNotNil(a.hooks.OnStop)
 
+	select {
+	case <-a.errCh:
+		// forget the requests made during the shutdown, so the application can be started again
+	default:
+	}
+
+	callIfNotNil(a.hooks.OnStop)
 	return err
 }
 
@@ -187,7 +193,7 @@ func (a *App) run(servers []*tcp.Server) error {
 // NOTE: the call isn't blocking. So by that, after the method returned, the server
 // will be still working
 func (a *App) GracefulStop() {
-	a.errCh <- status.ErrGracefulShutdown
+	a.shutdown(status.ErrGracefulShutdown)
 }
 
 // Stop stops the whole application immediately.
@@ -195,7 +201,15 @@ func (a *App) GracefulStop() {
 // NOTE: the call isn't blocking. So by that, after the method returned, the server
 // will still be working
 func (a *App) Stop() {
-	a.errCh <- status.ErrShutdown
+	a.shutdown(status.ErrShutdown)
+}
+
+func (a *App) shutdown(err error) {
+	select {
+	case a.errCh <- err:
+	default:
+		// the shutdown is already requested
+	}
 }
 
 func (a *App) newHTTPHandler(enc encryption.Token) listenerHandler {
-- 
2.43.0


From c97ae4eaa0c95f6ae01675854f6286f9e3e2b43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:55 +0000
Subject: [PATCH 43/63] fix: do not lose the data received together with an
 error

---
 internal/tcp/client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/tcp/client.go b/internal/tcp/client.go
index 6621024..08be6cb 100644
--- a/internal/tcp/client.go
+++ b/internal/tcp/client.go
@@ -45,7 +45,10 @@ func (c *client) Read() ([]byte, error) {
 	}
 
 	n, err := c.conn.Read(c.buff)
-
+	if n > 0 {
+		// the data must not be lost. If the error persists, it will be returned by the next read
+		return c.buff[:n], nil
+	}
 	return c.buff[:n], err
 }
 
-- 
2.43.0


From d4b47bf5500de2d22189921724ba6e2cfc07372a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:00 +0000
Subject: [PATCH 44/63] fix: do not share the TRACE buffer across connections
 and requests

---
 router/inbuilt/inbuilt.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/router/inbuilt/inbuilt.go b/router/inbuilt/inbuilt.go
index ceb1696..6248422 100644
--- a/router/inbuilt/inbuilt.go
+++ b/router/inbuilt/inbuilt.go
@@ -49,7 +49,6 @@ func New() *Router {
 type runtimeRouter struct {
 	mutators    []Mutator
 	catchers    []Catcher
-	traceBuff   []byte
 	tree        radix.Tree
 	routesMap   routesMap
 	errHandlers errorHandlers
@@ -135,9 +134,8 @@ func (r *runtimeRouter) OnError(request *http.Request, err error) *http.Response
 
 func (r *runtimeRouter) onError(request *http.Request, err error) *http.Response {
 	if request.Method == method.TRACE && err == status.ErrMethodNotAllowed {
-		r.traceBuff = renderHTTPRequest(request, r.traceBuff)
-
-		return traceResponse(request.Respond(), r.traceBuff)
+		// the router is shared across all the connections, so the buffer can't be
+		return traceResponse(request.Respond(), renderHTTPRequest(request, nil))
 	}
 
 	if err == status.ErrNotFound {
-- 
2.43.0


From ea264c4f176954e1fe769a404b4f2dced381b441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:33 +0000
Subject: [PATCH 45/63] fix: static files in groups, next to similar prefixes
 and requested concurrently

---
 router/inbuilt/static.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/router/inbuilt/static.go b/router/inbuilt/static.go
index 1ff7242..b3847ec 100644
--- a/router/inbuilt/static.go
+++ b/router/inbuilt/static.go
@@ -4,25 +4,35 @@ import (
 	"github.com/indigo-web/indigo/http"
 	"github.com/indigo-web/indigo/http/status"
 	"github.com/indigo-web/indigo/internal/pathlib"
+	"path"
 	"strings"
 )
 
 // Static adds a catcher of prefix, that automatically returns files from defined root
 // directory
 func (r *Router) Static(prefix, root string, mwares ...Middleware) *Router {
-	pathReplacer := pathlib.NewPath(prefix, root)
+	// requests come with the whole path, including prefixes of groups
+	fullPrefix := path.Join(r.prefix, prefix)
 
 	return r.Catch(prefix, func(request *http.Request) *http.Response {
-		pathReplacer.Set(request.Path)
-		path := pathReplacer.Relative()
-		if !isSafe(path) {
+		if !isBelow(request.Path, fullPrefix) || !isSafe(request.Path[len(fullPrefix):]) {
 			return http.Error(request, status.ErrNotFound)
 		}
 
-		return request.Respond().File(path)
+		// the handler is called concurrently, so the replacer can't be shared
+		pathReplacer := pathlib.NewPath(fullPrefix, root)
+		pathReplacer.Set(request.Path)
+
+		return request.Respond().File(pathReplacer.Relative())
 	}, mwares...)
 }
 
+// isBelow tells whether the path is in the prefix directory. As catchers compare only prefixes,
+// it might be e.g. /staticfile with the prefix of /static
+func isBelow(path, prefix string) bool {
+	return strings.HasSuffix(prefix, "/") || len(path) == len(prefix) || path[len(prefix)] == '/'
+}
+
 // isSafe checks for path traversal (basically - double dots)
 func isSafe(path string) bool {
 	for len(path) > 0 {
-- 
2.43.0


From fdceff2f487f8d74e2790dcd59d1c2851aecbe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:38 +0000
Subject: [PATCH 46/63] fix: parse templates with single-character, leading
 dynamic and unclosed sections

---
 router/inbuilt/internal/radix/template.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/router/inbuilt/internal/radix/template.go b/router/inbuilt/internal/radix/template.go
index 26b267b..4a65f10 100644
--- a/router/inbuilt/internal/radix/template.go
+++ b/router/inbuilt/internal/radix/template.go
@@ -31,7 +31,8 @@ func Parse(tmpl string) (Template, error) {
 	var (
 		offset   = 1
 		template = Template{}
-		state    = eStatic
+		// the template starts with a slash
+		state = eSlash
 	)
 
 	if len(tmpl) == 0 {
@@ -96,7 +97,11 @@ func Parse(tmpl string) (Template, error) {
 		}
 	}
 
-	if state == eStatic && offset < len(tmpl)-1 {
+	if state == eDynamic {
+		return template, fmt.Errorf(`"%s": figure brace isn't closed`, tmpl)
+	}
+
+	if state == eStatic {
 		template.segments = append(template.segments, Segment{
 			IsWildcard: false,
 			Payload:    tmpl[offset:],
-- 
2.43.0


From c96a0dd5df514059ba04fd879543aab548b2200d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:16 +0000
Subject: [PATCH 47/63] fix: respond with 404 to the root path if only dynamic
 routes are registered without it

---
 router/inbuilt/internal/radix/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router/inbuilt/internal/radix/tree.go b/router/inbuilt/internal/radix/tree.go
index e881fd9..1a8567b 100644
--- a/router/inbuilt/internal/radix/tree.go
+++ b/router/inbuilt/internal/radix/tree.go
@@ -29,7 +29,7 @@ type Node struct {
 }
 
 func New() *Node {
-	return newNode(new(Payload), false, "")
+	return newNode(nil, false, "")
 }
 
 func newNode(payload *Payload, isDyn bool, dynName string) *Node {
-- 
2.43.0


From 785891e0a17800b1a753568a3b5cce580f194f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:17 +0000
Subject: [PATCH 48/63] fix: do not panic in built-in middlewares if the
 handler returned no response

---
 router/inbuilt/middleware/logging.go      |  2 +-
 router/inbuilt/middleware/serverheader.go | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/router/inbuilt/middleware/logging.go b/router/inbuilt/middleware/logging.go
index d7fc2a9..9ece30c 100644
--- a/router/inbuilt/middleware/logging.go
+++ b/router/inbuilt/middleware/logging.go
@@ -17,7 +17,7 @@ func LogRequests(loggers ...Logger) inbuilt.Middleware {
 	}
 
 	return func(next inbuilt.Handler, request *http.Request) *http.Response {
-		response := next(request)
+		response := notNil(request, next(request))
 		if response.Reveal().Code == status.CloseConnection {
 			return response
 		}
diff --git a/router/inbuilt/middleware/serverheader.go b/router/inbuilt/middleware/serverheader.go
index 72898ff..4872812 100644
--- a/router/inbuilt/middleware/serverheader.go
+++ b/router/inbuilt/middleware/serverheader.go
@@ -15,7 +15,16 @@ func ServerHeader(customHeaders ...string) inbuilt.Middleware {
 	}
 
 	return func(next inbuilt.Handler, request *http.Request) *http.Response {
-		return next(request).
+		return notNil(request, next(request)).
 			Header("Server", value)
 	}
 }
+
+// notNil returns an empty response for handlers, which don't return anything
+func notNil(request *http.Request, response *http.Response) *http.Response {
+	if response == nil {
+		return request.Respond()
+	}
+
+	return response
+}
-- 
2.43.0


From 6c7063f7576c930a751c721d31bd8f79c9deb57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:22 +0000
Subject: [PATCH 49/63] fix: encode the path and respect IPv6 hosts when
 redirecting to https

---
 router/inbuilt/middleware/httpsonly.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/router/inbuilt/middleware/httpsonly.go b/router/inbuilt/middleware/httpsonly.go
index 727d97b..2c02612 100644
--- a/router/inbuilt/middleware/httpsonly.go
+++ b/router/inbuilt/middleware/httpsonly.go
@@ -5,6 +5,7 @@ import (
 	"github.com/indigo-web/indigo/http/encryption"
 	"github.com/indigo-web/indigo/http/status"
 	"github.com/indigo-web/indigo/router/inbuilt"
+	"net/url"
 	"strings"
 )
 
@@ -40,9 +41,9 @@ func HTTPSOnly(optionalParams ...HTTPOnlyParams) inbuilt.Middleware {
 
 		host += ":" + params.Port
 		if len(request.Env.AliasFrom) > 0 {
-			host += request.Env.AliasFrom
+			host += escape(request.Env.AliasFrom)
 		} else {
-			host += request.Path
+			host += escape(request.Path)
 		}
 
 		return request.Respond().
@@ -51,7 +52,19 @@ func HTTPSOnly(optionalParams ...HTTPOnlyParams) inbuilt.Middleware {
 	}
 }
 
+// escape encodes the path back, as it's already decoded and may contain e.g. line breaks
+func escape(path string) string {
+	return (&url.URL{Path: path}).EscapedPath()
+}
+
 func removePort(str string) string {
+	if strings.HasPrefix(str, "[") {
+		// colons inside of brackets belong to the IPv6 address
+		if end := strings.IndexByte(str, ']'); end != -1 {
+			return str[:end+1]
+		}
+	}
+
 	if colon := strings.IndexByte(str, ':'); colon != -1 {
 		return str[:colon]
 	}
-- 
2.43.0


From 4a2950cfcee1a5439f87d742b2d66a4e97374261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:52 +0000
Subject: [PATCH 50/63] fix: require the dot in the version of a protocol token

---
 http/proto/proto.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/http/proto/proto.go b/http/proto/proto.go
index 690d997..a48978e 100644
--- a/http/proto/proto.go
+++ b/http/proto/proto.go
@@ -26,6 +26,7 @@ func (p Proto) String() string {
 const (
 	protoTokenLength   = len("HTTP/x.x")
 	majorVersionOffset = len("HTTP/x") - 1
+	versionDotOffset   = len("HTTP/x.") - 1
 	minorVersionOffset = len("HTTP/x.x") - 1
 	httpScheme         = "HTTP/"
 )
@@ -36,7 +37,7 @@ var majorMinorVersionLUT = [10][10]Proto{
 }
 
 func FromBytes(raw []byte) Proto {
-	if len(raw) != protoTokenLength || uf.B2S(raw[:majorVersionOffset]) != httpScheme {
+	if len(raw) != protoTokenLength || uf.B2S(raw[:majorVersionOffset]) != httpScheme || raw[versionDotOffset] != '.' {
 		return Unknown
 	}
 
-- 
2.43.0


From 6fafef353af78b9c545f44a57402aba086c817e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:57 +0000
Subject: [PATCH 51/63] fix: a header line without a colon is malformed,
 wherever the next colon is

---
 internal/protocol/http1/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index eac68db..bef93a9 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -222,6 +222,11 @@ headerKey:
 			return Pending, nil, nil
 		}
 
+		if bytes.IndexByte(data[:colon], '\n') != -1 {
+			// the colon belongs to some of the following lines
+			return Error, nil, status.ErrBadRequest
+		}
+
 		if !headerKeyBuff.Append(data[:colon]) {
 			return Error, nil, status.ErrHeaderFieldsTooLarge
 		}
-- 
2.43.0


From c26fbbead5b5c8b5f4128473361c22e347b5f75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:19 +0000
Subject: [PATCH 52/63] fix: answer HTTP/2 request lines with 505 in HTTP/1.1
 instead of serving them

---
 internal/protocol/http1/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index bef93a9..71defe1 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -179,7 +179,9 @@ path:
 
 		request.Path = uf.B2S(reqPath)
 		request.Proto = proto.FromBytes(reqProto)
-		if request.Proto == proto.Unknown {
+		if request.Proto&proto.HTTP1 == 0 {
+			// HTTP/2 is a known protocol, too, but can't be served by HTTP/1 request lines
+			request.Proto = proto.Unknown
 			return Error, nil, status.ErrUnsupportedProtocol
 		}
 
-- 
2.43.0


From 8c65c100d638b7fa948765b020136f228a45879f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:00 +0000
Subject: [PATCH 53/63] fix: HTTPSOnly redirected targets without a leading
 slash to another host

---
 router/inbuilt/middleware/httpsonly.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/router/inbuilt/middleware/httpsonly.go b/router/inbuilt/middleware/httpsonly.go
index 2c02612..98f1289 100644
--- a/router/inbuilt/middleware/httpsonly.go
+++ b/router/inbuilt/middleware/httpsonly.go
@@ -54,6 +54,11 @@ func HTTPSOnly(optionalParams ...HTTPOnlyParams) inbuilt.Middleware {
 
 // escape encodes the path back, as it's already decoded and may contain e.g. line breaks
 func escape(path string) string {
+	if !strings.HasPrefix(path, "/") {
+		// otherwise it'd be considered as a part of the host
+		path = "/" + path
+	}
+
 	return (&url.URL{Path: path}).EscapedPath()
 }
 
-- 
2.43.0


From 0222b294a6fc4447c4fd1923af603b7454d038d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:01 +0000
Subject: [PATCH 54/63] fix: HTTPSOnly reflected control characters of Host in
 the Location header

---
 router/inbuilt/middleware/httpsonly.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/router/inbuilt/middleware/httpsonly.go b/router/inbuilt/middleware/httpsonly.go
index 98f1289..3ea0584 100644
--- a/router/inbuilt/middleware/httpsonly.go
+++ b/router/inbuilt/middleware/httpsonly.go
@@ -7,6 +7,7 @@ import (
 	"github.com/indigo-web/indigo/router/inbuilt"
 	"net/url"
 	"strings"
+	"unicode"
 )
 
 type HTTPOnlyParams struct {
@@ -37,6 +38,12 @@ func HTTPSOnly(optionalParams ...HTTPOnlyParams) inbuilt.Middleware {
 					Code(status.BadRequest).
 					String("no Host header")
 			}
+			if strings.IndexFunc(host, unicode.IsControl) != -1 {
+				// e.g. a bare CR, which some clients consider as a line break
+				return request.Respond().
+					Code(status.BadRequest).
+					String("bad Host header")
+			}
 		}
 
 		host += ":" + params.Port
-- 
2.43.0


From 9ec35940bff894747eec2dc5d57dc8cc7d68403d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:56 +0000
Subject: [PATCH 55/63] fix: look up header value parameters separated by a
 blank

---
 http/headers/valueaccessors.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/http/headers/valueaccessors.go b/http/headers/valueaccessors.go
index c103137..0a21882 100644
--- a/http/headers/valueaccessors.go
+++ b/http/headers/valueaccessors.go
@@ -51,13 +51,22 @@ func ParamOfOr(str, key, or string) string {
 }
 
 func getParam(str, substr, or string) string {
-	if index := strings.Index(str, substr); index != -1 {
-		valOffset := index + len(substr)
+	separator, key := substr[0], substr[1:]
 
-		return str[valOffset : valOffset+getParamEnd(str[valOffset:])]
-	}
+	for {
+		index := strings.IndexByte(str, separator)
+		if index == -1 {
+			return or
+		}
+
+		// whitespaces after the separator are insignificant
+		str = strings.TrimLeft(str[index+1:], " \t")
+		if strings.HasPrefix(str, key) {
+			str = str[len(key):]
 
-	return or
+			return str[:getParamEnd(str)]
+		}
+	}
 }
 
 func getParamEnd(str string) int {
-- 
2.43.0


From 6804a28b420b61fce02f0bdceab717f44d7a13ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:04 +0000
Subject: [PATCH 56/63] fix: handle connections being accepted during the
 shutdown

---
 internal/tcp/server.go | 52 ++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/internal/tcp/server.go b/internal/tcp/server.go
index edf1210..5f0fdc9 100644
--- a/internal/tcp/server.go
+++ b/internal/tcp/server.go
@@ -18,8 +18,12 @@ type Server struct {
 	sock     net.Listener
 	onConn   OnConn
 	shutdown atomic.Bool
-	// mu makes sure no connection is handled once the server is being shut down
+	// mu makes sure no connection is handled once the server is shut down
 	mu sync.Mutex
+	// loop is closed when the accept-loop ends
+	loop chan struct{}
+	// interrupted tells that the accept-loop was interrupted by the shutdown, thus is about to end
+	interrupted bool
 }
 
 func NewServer(sock net.Listener, onConn OnConn) *Server {
@@ -33,6 +37,8 @@ func NewServer(sock net.Listener, onConn OnConn) *Server {
 // Start runs the accept-loop until an error during accepting the connection happens
 // or graceful shutdown invokes
 func (s *Server) Start() error {
+	defer close(s.enter())
+
 	// we still need the shutdown atomic here, because not every net.Listener
 	// is the Deadliner, too. So by that, in such cases we can't interrupt the
 	// accept-loop via SetDeadline() method. In this case, just wait till the
@@ -55,12 +61,23 @@ func (s *Server) Start() error {
 	return nil
 }
 
-// acquire registers a new connection, unless the server is being shut down
+// enter marks the beginning of the accept-loop and returns the channel to be closed in its end
+func (s *Server) enter() chan struct{} {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	s.loop = make(chan struct{})
+
+	return s.loop
+}
+
+// acquire registers a new connection, unless the server is shut down. The one being accepted at the
+// moment of shutting down is still fine if the loop was interrupted, as it's being waited for then
 func (s *Server) acquire() bool {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.shutdown.Load() {
+	if s.shutdown.Load() && !s.interrupted {
 		return false
 	}
 
@@ -69,32 +86,43 @@ func (s *Server) acquire() bool {
 	return true
 }
 
-func (s *Server) disallow() {
-	s.mu.Lock()
-	s.shutdown.Store(true)
-	s.mu.Unlock()
-}
-
 // Stop closes the server socket, however all the clients won't be notified explicitly
 // until they try to send us anything
 func (s *Server) Stop() error {
-	s.disallow()
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	if !s.shutdown.Swap(true) {
+		s.interrupted = true
+	}
 
 	return s.sock.Close()
 }
 
 // Pause stops listening to new connections, however doesn't close the socket.
 func (s *Server) Pause() {
-	s.disallow()
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	repeated := s.shutdown.Swap(true)
 
 	if listener, ok := s.sock.(Deadliner); ok {
 		// interrupt the listener RIGHT NOW
-		_ = listener.SetDeadline(time.Now())
+		err := listener.SetDeadline(time.Now())
+		s.interrupted = s.interrupted || (err == nil && !repeated)
 	}
 }
 
 // Wait blocks the caller until all the connections are closed
 func (s *Server) Wait() {
+	s.mu.Lock()
+	loop, interrupted := s.loop, s.interrupted
+	s.mu.Unlock()
+
+	if loop != nil && interrupted {
+		<-loop
+	}
+
 	s.wg.Wait()
 }
 
-- 
2.43.0


From cf7a6236a482a971d6164b194e3c44844af6b573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:39 +0000
Subject: [PATCH 57/63] fix: empty sections of route templates were lost or
 merged into neighbours in the dynamic mode

---
 router/inbuilt/internal/radix/template.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/router/inbuilt/internal/radix/template.go b/router/inbuilt/internal/radix/template.go
index 4a65f10..686298a 100644
--- a/router/inbuilt/internal/radix/template.go
+++ b/router/inbuilt/internal/radix/template.go
@@ -63,6 +63,9 @@ func Parse(tmpl string) (Template, error) {
 		case eSlash:
 			switch tmpl[i] {
 			case '/':
+				// an empty segment is still a segment, as requests' paths are split in the same way
+				template.segments = append(template.segments, Segment{})
+				offset = i + 1
 			case '{':
 				offset = i + 1
 				state = eDynamic
-- 
2.43.0


From 6e4e38e2f88089fdf7024aba007340de3ed23bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:17 +0000
Subject: [PATCH 58/63] fix: initializing the inbuilt router again doubled its
 middlewares and panicked on groups

---
 router/inbuilt/inbuilt.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/router/inbuilt/inbuilt.go b/router/inbuilt/inbuilt.go
index 6248422..461866b 100644
--- a/router/inbuilt/inbuilt.go
+++ b/router/inbuilt/inbuilt.go
@@ -55,7 +55,10 @@ type runtimeRouter struct {
 	isStatic    bool
 }
 
+// Initialize builds the runtime router. It may be called several times, e.g. when the application is being
+// served again or the router is used for multiple virtual hosts
 func (r *Router) Initialize() router.Router {
+	r = r.clone()
 	r.applyErrorHandlersMiddlewares()
 
 	if err := r.prepare(); err != nil {
@@ -86,6 +89,26 @@ func (r *Router) Initialize() router.Router {
 	}
 }
 
+// clone copies the router with all its groups, so the original one stays intact when being prepared
+func (r *Router) clone() *Router {
+	clone := *r
+	clone.registrar = newRegistrar()
+	_ = clone.registrar.Merge(r.registrar)
+	clone.mutators = append([]Mutator(nil), r.mutators...)
+	clone.catchers = append([]Catcher(nil), r.catchers...)
+	clone.errHandlers = make(errorHandlers, len(r.errHandlers))
+	for code, handler := range r.errHandlers {
+		clone.errHandlers[code] = handler
+	}
+
+	clone.children = make([]*Router, len(r.children))
+	for i, child := range r.children {
+		clone.children[i] = child.clone()
+	}
+
+	return &clone
+}
+
 // OnRequest processes the request
 func (r *runtimeRouter) OnRequest(request *http.Request) *http.Response {
 	r.runMutators(request)
-- 
2.43.0


From 86487e4198e9df6f9a06dbe7ac2161b58c4fd054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:42 +0000
Subject: [PATCH 59/63] fix: JSON bodies with anything after the document were
 accepted

---
 http/request.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/http/request.go b/http/request.go
index 1d586e5..50e2dc3 100644
--- a/http/request.go
+++ b/http/request.go
@@ -108,12 +108,8 @@ func (r *Request) JSON(model any) error {
 		return err
 	}
 
-	iterator := json.ConfigDefault.BorrowIterator(data)
-	iterator.ReadVal(model)
-	err = iterator.Error
-	json.ConfigDefault.ReturnIterator(iterator)
-
-	return err
+	// in contrast to reading a single value, it also makes sure there's nothing left after it
+	return json.ConfigDefault.Unmarshal(data, model)
 }
 
 // Cookies returns a cookie jar with parsed cookies key-value pairs, and an error
-- 
2.43.0


From ccaedb038e853c90e9919faf667e78c376e203c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:43 +0000
Subject: [PATCH 60/63] fix: make cached self-signed certificates anew if they
 are damaged or expired

---
 https.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/https.go b/https.go
index 6891b9e..6625b07 100644
--- a/https.go
+++ b/https.go
@@ -92,7 +92,7 @@ func generateSelfSignedCert() (cert, key string, err error) {
 		keyFilename  = filepath.Join(cache, "localhost.key")
 	)
 
-	if certExists(certFilename, keyFilename) {
+	if certExists(certFilename, keyFilename) && certUsable(certFilename, keyFilename) {
 		return certFilename, keyFilename, nil
 	}
 
@@ -165,6 +165,19 @@ func certExists(cert, key string) bool {
 	return fileExists(cert) && fileExists(key)
 }
 
+// certUsable tells whether the pair can be loaded (writing it might have been interrupted) and
+// isn't expired yet
+func certUsable(cert, key string) bool {
+	pair, err := tls.LoadX509KeyPair(cert, key)
+	if err != nil {
+		return false
+	}
+
+	leaf, err := x509.ParseCertificate(pair.Certificate[0])
+
+	return err == nil && time.Now().Before(leaf.NotAfter)
+}
+
 func fileExists(filename string) bool {
 	stat, err := os.Stat(filename)
 
-- 
2.43.0


From 58083e18f63846ab9f0d6e4c93b1ace362f96815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:49 +0000
Subject: [PATCH 61/63] fix: configurations don't share the default headers map

---
 config/config.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index 44f7a91..dcce59a 100644
--- a/config/config.go
+++ b/config/config.go
@@ -144,7 +144,7 @@ func Default() Config {
 				Maximal: 8 * 1024, // however allow at most 8kb of headers
 			},
 			MaxEncodingTokens:  15,
-			Default:            DefaultHeaders,
+			Default:            copyMap(DefaultHeaders),
 			CookiesPreAllocate: 5,
 		},
 		Body: Body{
@@ -229,3 +229,13 @@ func mapOr[K comparable, V any](custom, defaultVal map[K]V) map[K]V {
 
 	return custom
 }
+
+// copyMap is used in order to keep configs independent, as maps are usually modified in place
+func copyMap[K comparable, V any](src map[K]V) map[K]V {
+	dst := make(map[K]V, len(src))
+	for key, value := range src {
+		dst[key] = value
+	}
+
+	return dst
+}
-- 
2.43.0


From 031da1fa7f4ccdcfc45190467de74889c68c8186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:27 +0000
Subject: [PATCH 62/63] fix: aliases of aliases keep the original path of the
 request in AliasFrom

---
 router/inbuilt/mutator/alias.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/router/inbuilt/mutator/alias.go b/router/inbuilt/mutator/alias.go
index 79d1d8f..80b280d 100644
--- a/router/inbuilt/mutator/alias.go
+++ b/router/inbuilt/mutator/alias.go
@@ -9,7 +9,10 @@ func Alias(from, to string) types.Mutator {
 	return func(request *http.Request) {
 		if request.Path == from {
 			request.Path = to
-			request.Env.AliasFrom = from
+			if len(request.Env.AliasFrom) == 0 {
+				// the request might already be aliased, so it isn't the original path
+				request.Env.AliasFrom = from
+			}
 		}
 	}
 }
-- 
2.43.0


From 905fa64931787ff6835f02c2677ddcd98f33183b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:42 +0000
Subject: [PATCH 63/63] fix: setting Content-Type or Transfer-Encoding without
 values doesn't panic

---
 http/response.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/http/response.go b/http/response.go
index 6136eab..f4e62b4 100644
--- a/http/response.go
+++ b/http/response.go
@@ -73,6 +73,10 @@ func (r *Response) TransferEncoding(value string) *Response {
 // Header sets header values to a key. In case it already exists the value will
 // be appended.
 func (r *Response) Header(key string, values ...string) *Response {
+	if len(values) == 0 {
+		return r
+	}
+
 	switch {
 	case strcomp.EqualFold(key, "content-type"):
 		return r.ContentType(values[0])
-- 
2.43.0

