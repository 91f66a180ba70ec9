//go:build go1.22

// Monitor of C36: applications with HTTPS listeners of all kinds; a client records the certificate every handshake presents,
// verifies the encrypted exchange and compares with the certificate configured (or found in the cache directory).
package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"log"
	"math/big"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
	"github.com/indigo-web/indigo/router/inbuilt"
)

type pair struct {
	cert, key string
	der       []byte
}

func makePair(dir, name string) (p pair, err error) { return makePairUntil(dir, name, 24*time.Hour) }

func makePairUntil(dir, name string, until time.Duration) (p pair, err error) {
	priv, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		return p, err
	}
	tmpl := x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: name}, DNSNames: []string{"localhost", name},
		NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(until), BasicConstraintsValid: true}
	if p.der, err = x509.CreateCertificate(crand.Reader, &tmpl, &tmpl, &priv.PublicKey, priv); err != nil {
		return p, err
	}
	k, err := x509.MarshalPKCS8PrivateKey(priv)
	if err != nil {
		return p, err
	}
	p.cert, p.key = filepath.Join(dir, name+".crt"), filepath.Join(dir, name+".key")
	if err = os.WriteFile(p.cert, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: p.der}), 0o600); err != nil {
		return p, err
	}
	return p, os.WriteFile(p.key, pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: k}), 0o600)
}

type listener struct {
	kind, addr, dial string
	want             []byte // the certificate that must be presented; nil: the one of the cache
}

func freePort() (string, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return "", err
	}
	defer l.Close()
	_, port, err := net.SplitHostPort(l.Addr().String())
	return port, err
}

func router() *inbuilt.Router {
	return inbuilt.New().Get("/enc", func(req *http.Request) *http.Response {
		return req.Respond().String(fmt.Sprint("encryption ", req.Env.Encryption == encryption.TLS))
	})
}

// serve starts the application; nil when a port was taken meanwhile.
func serve(app *indigo.App) (stop func() bool, err error) {
	started := make(chan struct{})
	done := make(chan error, 1)
	go func() { done <- app.OnStart(func() { close(started) }).Serve(router()) }()
	select {
	case <-started:
	case err = <-done:
		return nil, err
	}
	return func() bool {
		app.Stop()
		select {
		case <-done:
			return true
		case <-time.After(60 * time.Second):
			return false
		}
	}, nil
}

func cached(dir string) (pair, error) {
	d := filepath.Join(dir, "golang-autocert")
	p := pair{cert: filepath.Join(d, "localhost.crt"), key: filepath.Join(d, "localhost.key")}
	data, err := os.ReadFile(p.cert)
	if err != nil {
		return p, err
	}
	b, _ := pem.Decode(data)
	if b == nil {
		return p, fmt.Errorf("%s holds no certificate", p.cert)
	}
	p.der = b.Bytes
	return p, nil
}

// clientConfig returns the settings of the clients in turn: every other one speaks HTTP/2, too.
func clientConfig(name string) *tls.Config {
	cfg := &tls.Config{InsecureSkipVerify: true, ServerName: name}
	if modern = !modern; modern {
		cfg.NextProtos = []string{"h2", "http/1.1"}
	}
	return cfg
}

var modern bool

// negotiated tells whether the protocol both sides agreed on is one the server speaks.
func negotiated(r *Run, c any, cfg *tls.Config, conn *tls.Conn) bool {
	if p := conn.ConnectionState().NegotiatedProtocol; p != "" && p != "http/1.1" {
		r.Violate("protocol", c, "the listener agrees on the protocol %q in the handshake, but serves HTTP/1", p)
		return false
	}
	if cfg.NextProtos != nil {
		r.Count("clients_with_http2", 1)
	}
	return true
}

func probe(r *Run, c any, l listener) (der []byte, ok bool) {
	cfg := clientConfig("")
	conn, err := tls.DialWithDialer(&net.Dialer{Timeout: 60 * time.Second}, "tcp", l.dial, cfg)
	if err != nil {
		if ne, isNet := err.(net.Error); isNet && ne.Timeout() {
			r.Inconclusive("dial: %v", err)
			return nil, false
		}
		r.Violate("handshake", c, "the handshake with the %s listener on %s fails: %v", l.kind, l.addr, err)
		return nil, false
	}
	defer conn.Close()
	if !negotiated(r, c, cfg, conn) {
		return nil, false
	}
	_ = conn.SetDeadline(time.Now().Add(60 * time.Second))
	state := conn.ConnectionState()
	if len(state.PeerCertificates) == 0 {
		r.Violate("certificate", c, "no certificate from the %s listener", l.kind)
		return nil, false
	}
	crt := state.PeerCertificates[0]
	now := time.Now()
	if now.Before(crt.NotBefore) || now.After(crt.NotAfter) {
		r.Violate("validity", c, "the certificate of the %s listener isn't valid now: %v - %v", l.kind, crt.NotBefore, crt.NotAfter)
		return nil, false
	}
	if _, err = conn.Write([]byte("GET /enc HTTP/1.1\r\nConnection: close\r\n\r\n")); err != nil {
		r.Inconclusive("write: %v", err)
		return nil, false
	}
	text, err := io.ReadAll(bufio.NewReader(conn))
	if !strings.HasPrefix(string(text), "HTTP/1.1 200 ") || !strings.HasSuffix(string(text), "encryption true") {
		r.Violate("exchange", c, "the %s listener answers %s (%v)", l.kind, Q(text), err)
		return nil, false
	}
	// what isn't TLS gets nothing served
	plain, err := net.DialTimeout("tcp", l.dial, 60*time.Second)
	if err == nil {
		_ = plain.SetDeadline(time.Now().Add(60 * time.Second))
		_, _ = plain.Write([]byte("GET /enc HTTP/1.1\r\n\r\n"))
		text, _ := io.ReadAll(plain)
		plain.Close()
		if bytes.Contains(text, []byte("encryption")) {
			r.Violate("plain", c, "a request without TLS is served by the %s listener: %s", l.kind, Q(text))
			return nil, false
		}
		r.Count("plain_refused", 1)
	}
	r.Count("handshakes_"+l.kind, 1)
	return crt.Raw, true
}

func apps(r *Run, g *rand.Rand, i int, dir string, pairs []pair) {
	cache := useCache(g, dir, fmt.Sprint("cache", i))
	state := Pick(g, []string{"none", "none", "empty", "cert-only", "key-only", "both", "both", "expired", "cut-key", "cut-cert", "empty-key", "empty-cert", "mismatch"})
	sub := filepath.Join(cache, "golang-autocert")
	until := 24 * time.Hour
	if state == "expired" {
		until = -time.Minute
	}
	stored, err := makePairUntil(dir, fmt.Sprint("stored", i), until)
	if err == nil && state != "none" {
		err = os.MkdirAll(sub, 0o700)
	}
	cp := func(from, to string) {
		data, e := os.ReadFile(from)
		if e == nil {
			e = os.WriteFile(filepath.Join(sub, to), data, 0o600)
		}
		if e != nil {
			err = e
		}
	}
	cut := func(name string, part int) {
		file := filepath.Join(sub, name)
		data, e := os.ReadFile(file)
		if e == nil {
			e = os.WriteFile(file, data[:len(data)*part/10], 0o600)
		}
		if e != nil {
			err = e
		}
	}
	unusable := false // the pair kept cannot be used
	switch state {
	case "cert-only":
		cp(stored.cert, "localhost.crt")
	case "key-only":
		cp(stored.key, "localhost.key")
	case "none", "empty":
	default:
		cp(stored.cert, "localhost.crt")
		cp(stored.key, "localhost.key")
		unusable = state != "both"
	}
	switch state {
	case "cut-key":
		cut("localhost.key", 1+g.Intn(8))
	case "cut-cert":
		cut("localhost.crt", 1+g.Intn(8))
	case "empty-key":
		cut("localhost.key", 0)
	case "empty-cert":
		cut("localhost.crt", 0)
	case "mismatch":
		cp(pairs[0].key, "localhost.key")
	}
	if err != nil {
		r.Inconclusive("%v", err)
		return
	}
	var first []byte
	for life := 0; life < 2; life++ {
		var ls []listener
		app := new(indigo.App)
		n := 1 + g.Intn(4)
		if Chance(g, 10) {
			n = 6 + g.Intn(6)
		}
		for ; n > 0; n-- {
			port, err := freePort()
			if err != nil {
				r.Inconclusive("%v", err)
				return
			}
			l := listener{kind: "https", addr: "127.0.0.1:" + port, dial: "127.0.0.1:" + port}
			if Chance(g, 50) {
				l.kind = "auto"
				l.addr = Pick(g, []string{"127.0.0.1", "localhost", "LocalHost", "0.0.0.0", ""}) + ":" + port
			}
			if len(ls) == 0 {
				l.kind = "auto"
				app = indigo.New("127.0.0.1:0")
			}
			if l.kind == "https" {
				p := Pick(g, pairs)
				l.want = p.der
				app.HTTPS(l.addr, p.cert, p.key)
			} else {
				app.AutoHTTPS(l.addr)
			}
			ls = append(ls, l)
		}
		c := map[string]any{"cache": state, "life": life, "listeners": fmt.Sprint(ls)}
		r.Step("apps %d", i)
		stop, err := serve(app)
		if err != nil {
			if strings.Contains(err.Error(), "address already in use") {
				r.Count("port_taken", 1)
				return
			}
			r.Violate("serve", c, "serving fails: %v", err)
			return
		}
		for _, name := range []string{sub, filepath.Join(sub, "localhost.key")} {
			// others must not get at the key, be it by the directory or by the file
			info, err := os.Stat(name)
			if err == nil && info.Mode().Perm()&0o077 == 0 {
				r.Count("key_private", 1)
				break
			}
			if name != sub && err == nil {
				r.Violate("key-exposed", c, "others can read the private key (%v %v)", info, err)
			}
		}
		in, err := cached(cache)
		if err != nil {
			r.Violate("cache", c, "no certificate in the cache directory: %v", err)
		}
		for _, l := range ls {
			for k := 0; k < 2; k++ {
				der, ok := probe(r, c, l)
				if !ok {
					continue
				}
				want := l.want
				if want == nil {
					want = in.der
				}
				if !bytes.Equal(der, want) {
					r.Violate("wrong-certificate", c, "the %s listener on %s presents another certificate than its own", l.kind, l.addr)
				}
			}
		}
		if !stop() {
			r.Inconclusive("the application doesn't stop")
			return
		}
		if first == nil {
			first = in.der
			if unusable && bytes.Equal(first, stored.der) {
				r.Violate("not-renewed", c, "the certificate of the cache is kept although it cannot be used: %s", state)
			}
			if made, err := x509.ParseCertificate(first); err == nil && state != "both" && time.Until(made.NotAfter) < 30*24*time.Hour {
				r.Violate("short-lived", c, "the certificate made is valid until %v only", made.NotAfter)
			}
			if state == "both" && !bytes.Equal(first, stored.der) {
				r.Violate("not-reused", c, "the certificate of the cache isn't used")
			}
		} else if !bytes.Equal(first, in.der) {
			r.Violate("not-reused", c, "another self-signed certificate is made although there is one")
		} else {
			r.Count("reused", 1)
		}
		r.Eval(fmt.Sprint(state, life, ls))
		r.Count("state_"+state, 1)
	}
}

// useCache makes a directory the user's cache directory, in one of the two ways there are.
func useCache(g *rand.Rand, dir, name string) string {
	if Chance(g, 40) {
		home := filepath.Join(dir, "home-"+name)
		_ = os.MkdirAll(home, 0o700)
		_ = os.Setenv("HOME", home)
		_ = os.Unsetenv("XDG_CACHE_HOME")
		return filepath.Join(home, ".cache")
	}
	cache := filepath.Join(dir, name)
	_ = os.Setenv("XDG_CACHE_HOME", cache)
	return cache
}

var authority atomic.Int64 // lookups of hosts that aren't ours, so of a certificate authority

// nameServer answers queries of the resolver: names below .example are this host.
func nameServer(conn net.Conn) {
	defer conn.Close()
	for {
		var size [2]byte
		if _, err := io.ReadFull(conn, size[:]); err != nil {
			return
		}
		msg := make([]byte, int(size[0])<<8|int(size[1]))
		if _, err := io.ReadFull(conn, msg); err != nil || len(msg) < 17 {
			return
		}
		end := 12
		var labels []string
		for end < len(msg) && msg[end] != 0 {
			n := int(msg[end])
			if end+1+n > len(msg) {
				return
			}
			labels = append(labels, string(msg[end+1:end+1+n]))
			end += 1 + n
		}
		end += 5
		if end > len(msg) {
			return
		}
		ours := len(labels) > 0 && labels[len(labels)-1] == "example"
		answer := []byte{msg[0], msg[1], 0x81, 0x80, 0, 1, 0, 0, 0, 0, 0, 0}
		if !ours {
			authority.Add(1)
			answer[3] |= 3
		}
		answer = append(answer, msg[12:end]...)
		if ours && msg[end-3] == 1 {
			answer[7] = 1
			answer = append(answer, 0xc0, 12, 0, 1, 0, 1, 0, 0, 0, 60, 0, 4, 127, 0, 0, 1)
		}
		if _, err := conn.Write(append([]byte{byte(len(answer) >> 8), byte(len(answer))}, answer...)); err != nil {
			return
		}
	}
}

// named: AutoHTTPS on a host name presents the certificates kept in the cache directory for the domains given, and no others.
func named(r *Run, g *rand.Rand, i int, dir string) {
	cache := filepath.Join(useCache(g, dir, fmt.Sprint("named", i)), "golang-autocert")
	if err := os.MkdirAll(cache, 0o700); err != nil {
		r.Inconclusive("%v", err)
		return
	}
	all := []string{"a.example", "b.example", "www.a.example", "c.example"}
	der := map[string][]byte{}
	for _, name := range all {
		p, err := makePair(dir, name)
		if err != nil {
			r.Inconclusive("%v", err)
			return
		}
		key, err1 := os.ReadFile(p.key)
		crt, err2 := os.ReadFile(p.cert)
		if err1 != nil || err2 != nil {
			r.Inconclusive("%v %v", err1, err2)
			return
		}
		// the form autocert keeps them in
		if err = os.WriteFile(filepath.Join(cache, name), append(key, crt...), 0o600); err != nil {
			r.Inconclusive("%v", err)
			return
		}
		der[name] = p.der
	}
	port, err := freePort()
	if err != nil {
		r.Inconclusive("%v", err)
		return
	}
	var domains []string
	if i%4 != 0 {
		for _, k := range g.Perm(len(all))[:1+g.Intn(3)] {
			domains = append(domains, all[k])
		}
	}
	addr := "server.example:" + port
	c := map[string]any{"address": addr, "domains": domains}
	r.Step("named %d", i)
	app := indigo.New("127.0.0.1:0").AutoHTTPS(addr, domains...)
	stop, err := serve(app)
	if err != nil {
		if strings.Contains(err.Error(), "address already in use") {
			r.Count("port_taken", 1)
			return
		}
		r.Violate("named-serve", c, "serving fails: %v", err)
		return
	}
	defer func() { stop() }()
	for _, name := range all {
		d := &net.Dialer{Timeout: 60 * time.Second}
		cfg := clientConfig(name)
		conn, err := tls.DialWithDialer(d, "tcp", "127.0.0.1:"+port, cfg)
		if ne, isNet := err.(net.Error); isNet && ne.Timeout() {
			r.Inconclusive("dial: %v", err)
			return
		}
		if err != nil {
			r.Violate("named-handshake", c, "the handshake for %s fails although there is a certificate for it in the cache directory: %v", name, err)
			continue
		}
		negotiated(r, c, cfg, conn)
		crts := conn.ConnectionState().PeerCertificates
		if len(crts) == 0 || !bytes.Equal(crts[0].Raw, der[name]) {
			r.Violate("named-certificate", c, "another certificate than the one kept for %s is presented", name)
		}
		_ = conn.SetDeadline(time.Now().Add(60 * time.Second))
		_, _ = conn.Write([]byte("GET /enc HTTP/1.1\r\nConnection: close\r\n\r\n"))
		text, err := io.ReadAll(bufio.NewReader(conn))
		conn.Close()
		if !strings.HasPrefix(string(text), "HTTP/1.1 200 ") || !strings.HasSuffix(string(text), "encryption true") {
			r.Violate("exchange", c, "the listener for domains answers %s (%v)", Q(text), err)
		}
		r.Count("named_served", 1)
	}
	// without a kept certificate one is requested, but only for the domains given
	for _, name := range append(all, "d.example", "www.d.example", "xa.example", "example") {
		_ = os.Remove(filepath.Join(cache, name))
	}
	if !stop() {
		r.Inconclusive("the application doesn't stop")
		return
	}
	stop, err = serve(app)
	if err != nil {
		r.Violate("named-serve", c, "serving again fails: %v", err)
		return
	}
	for _, name := range append(all, "d.example", "www.d.example", "xa.example", "sub.a.example") {
		allowed := len(domains) == 0
		for _, d := range domains {
			allowed = allowed || d == name
		}
		before := authority.Load()
		conn, err := tls.DialWithDialer(&net.Dialer{Timeout: 60 * time.Second}, "tcp", "127.0.0.1:"+port, &tls.Config{InsecureSkipVerify: true, ServerName: name})
		if ne, isNet := err.(net.Error); isNet && ne.Timeout() {
			r.Inconclusive("dial: %v", err)
			return
		}
		if err == nil {
			conn.Close()
			r.Violate("named-other", c, "a certificate is presented for %s, for which there is none", name)
			continue
		}
		asked := authority.Load() != before
		if asked && !allowed {
			r.Violate("named-other", c, "a certificate for %s is requested, which isn't one of the domains", name)
		}
		if !asked && allowed {
			r.Violate("named-unasked", c, "no certificate is requested for %s, which is one of the domains", name)
		}
		r.Count("named_refused", 1)
		if asked {
			r.Count("named_requested", 1)
		}
	}
	if plain, err := net.DialTimeout("tcp", "127.0.0.1:"+port, 60*time.Second); err == nil {
		_ = plain.SetDeadline(time.Now().Add(60 * time.Second))
		_, _ = plain.Write([]byte("GET /enc HTTP/1.1\r\n\r\n"))
		text, _ := io.ReadAll(plain)
		plain.Close()
		if bytes.Contains(text, []byte("encryption")) {
			r.Violate("plain", c, "a request without TLS is served by the listener for domains: %s", Q(text))
		}
	}
	r.Eval(fmt.Sprint("named", i, domains))
}

// broken: certificates that cannot be loaded make serving fail, with nothing left listening.
func broken(r *Run, g *rand.Rand, dir string, pairs []pair) {
	a, b := pairs[0], pairs[1]
	garbage := filepath.Join(dir, "garbage")
	empty := filepath.Join(dir, "empty")
	if err := os.WriteFile(garbage, []byte("-----BEGIN NOTHING-----\n"), 0o600); err != nil {
		r.Inconclusive("%v", err)
		return
	}
	_ = os.WriteFile(empty, nil, 0o600)
	bad := Pick(g, [][3]string{{"missing", filepath.Join(dir, "none"), a.key}, {"missing-key", a.cert, filepath.Join(dir, "none")}, {"garbage", garbage, a.key},
		{"empty", empty, empty}, {"mismatch", a.cert, b.key}, {"swapped", a.key, a.cert}, {"directory", dir, dir}})
	p1, err1 := freePort()
	p2, err2 := freePort()
	p3, err3 := freePort()
	if err1 != nil || err2 != nil || err3 != nil || p1 == p2 || p2 == p3 || p1 == p3 {
		return
	}
	app := indigo.New("127.0.0.1:"+p1).HTTPS("127.0.0.1:"+p2, b.cert, b.key).HTTPS("127.0.0.1:"+p3, bad[1], bad[2])
	c := map[string]any{"certificate": bad[0]}
	r.Step("broken %s", bad[0])
	stop, err := serve(app)
	if err == nil {
		r.Violate("broken-accepted", c, "an application with a %s certificate starts", bad[0])
		stop()
		return
	}
	if strings.Contains(err.Error(), "address already in use") {
		return
	}
	for _, p := range []string{p1, p2, p3} {
		conn, err := net.DialTimeout("tcp", "127.0.0.1:"+p, 5*time.Second)
		if err == nil && conn.LocalAddr().String() == conn.RemoteAddr().String() {
			// connected to itself
			conn.Close()
			continue
		}
		if err == nil {
			conn.Close()
			r.Violate("broken-listening", c, "a listener is left open after the failure")
		}
	}
	r.Eval("broken" + bad[0] + p1)
	r.Count("broken_"+bad[0], 1)
}

func main() {
	Main("C36", "applications with several HTTPS and AutoHTTPS listeners x states of the certificate cache, each served twice; certificates that cannot be loaded", func(r *Run) {
		log.SetOutput(io.Discard)
		net.DefaultResolver = &net.Resolver{PreferGo: true, Dial: func(context.Context, string, string) (net.Conn, error) {
			a, b := net.Pipe()
			go nameServer(b)
			return a, nil
		}}
		dir := filepath.Join(r.Scratch, "certs")
		if err := os.MkdirAll(dir, 0o700); err != nil {
			r.Inconclusive("%v", err)
			return
		}
		var pairs []pair
		for i := 0; i < 3; i++ {
			p, err := makePair(dir, fmt.Sprint("own", i))
			if err != nil {
				r.Inconclusive("%v", err)
				return
			}
			pairs = append(pairs, p)
		}
		g := r.Rng("apps")
		for i := 0; i < r.N(60, 400) && !r.Failed(); i++ {
			apps(r, g, i, dir, pairs)
		}
		for i := 0; i < r.N(60, 400); i++ {
			broken(r, g, dir, pairs)
		}
		for i := 0; i < r.N(12, 60) && !r.Failed(); i++ {
			named(r, g, i, dir)
		}
		r.Floor("handshakes_https", 40)
		r.Floor("handshakes_auto", 60)
		r.Floor("named_served", 10)
		r.Floor("named_refused", 5)
		r.Floor("reused", 10)
		r.Floor("plain_refused", 100)
	})
}
