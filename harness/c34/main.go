//go:build go1.22

// Monitor of C34: address classification against net/netip and generated ground truth.
package main

import (
	"fmt"
	"math/rand"
	"net"
	"net/netip"
	"strings"

	"github.com/indigo-web/indigo/internal/address"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
)

type addr struct {
	Host  string // without brackets
	Port  string // with the colon, or empty
	Class string // none, localhost, v4, v6 (bracketed), bare6, name
}

func (a addr) String() string {
	if a.Class == "v6" {
		return "[" + a.Host + "]" + a.Port
	}
	return a.Host + a.Port
}

func check(r *Run, a addr) {
	s := a.String()
	c := map[string]any{"addr": s, "class": a.Class}
	r.Guard("address", c, func() {
		if got, want := address.IsLocalhost(s), a.Class == "localhost"; got != want {
			r.Violate("is-localhost", c, "IsLocalhost(%q) = %v", s, got)
		}
		isIP := a.Class == "v4" || a.Class == "v6" || a.Class == "bare6"
		if isIP {
			if _, err := netip.ParseAddr(a.Host); err != nil {
				panic(fmt.Sprintf("generator: %q is not an address", a.Host))
			}
		}
		if got := address.IsIP(s); got != isIP {
			r.Violate("is-ip", c, "IsIP(%q) = %v", s, got)
		}
		want := s
		if a.Class == "none" {
			want = "0.0.0.0" + s
		}
		got := address.Normalize(s)
		if got != want {
			r.Violate("normalize", c, "Normalize(%q) = %q, want %q", s, got, want)
		}
		if again := address.Normalize(got); again != got {
			r.Violate("normalize-idempotent", c, "Normalize(%q) = %q", got, again)
		}
		if a.Port != "" && a.Port != ":" {
			host, port, err := net.SplitHostPort(got)
			if err != nil || ":"+port != a.Port || host == "" {
				r.Violate("normalize-port", c, "Normalize(%q) = %q does not keep the port", s, got)
			}
		}
	})
	r.Count(a.Class, 1)
	r.Eval(s)
}

func randCase(g *rand.Rand, s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' && Chance(g, 50) {
			b[i] -= 32
		}
	}
	return string(b)
}

func main() {
	Main("C34", "generated addresses of each class (no host, localhost in any case, IPv4, bracketed IPv6, names and near-misses), with and without ports; listening on normalized addresses. Distinct by address", func(r *Run) {
		g := r.Rng("addr")
		port := func() string {
			switch g.Intn(4) {
			case 0:
				return ""
			case 1:
				return ":80"
			case 2:
				return ":0"
			}
			return fmt.Sprintf(":%d", g.Intn(65536))
		}
		// localhost: all 512 case variants
		for m := 0; m < 512; m++ {
			b := []byte("localhost")
			for i := range b {
				if m>>i&1 == 1 {
					b[i] -= 32
				}
			}
			check(r, addr{string(b), "", "localhost"})
			check(r, addr{string(b), fmt.Sprintf(":%d", m*100), "localhost"})
		}
		check(r, addr{"", "", "none"})
		for p := 0; p < 65536; p += r.N(7, 1) {
			check(r, addr{"", fmt.Sprintf(":%d", p), "none"})
			check(r, addr{"10.0.0.1", fmt.Sprintf(":%d", p), "v4"})
		}
		// near misses
		for _, n := range []string{
			"localhos", "ocalhost", "localhost.", "localhost.com", "www.localhost", "localhostx", "xlocalhost", "local-host",
			"local", "host", "1.2.3", "1.2.3.256", "1.2.3.4.5", "1.2.3.4.", ".1.2.3.4", "1..3.4", "1.2.3.a", "256.1.1.1", "1.2.3.-4", "a.b.c.d",
			"example.com", "EXAMPLE.com", "sub.example.com", "x", "0", "1234", "0.0.0", "0x7f.1", "1.2.3.4a", "a1.2.3.4", "1_2_3_4", "com.1.2.3.4", "127.1",
			"*", " ", " localhost", "localhost ", "example.com ", "\tx", "_", "~", "loca1host", "1ocalhost", "localhоst", "999.999.999.999", "1.2.3.4/24", "1.2.3.04x",
		} {
			check(r, addr{n, "", "name"})
			for _, p := range []string{":0", ":1", ":80", ":443", ":8080", ":65535"} {
				check(r, addr{n, p, "name"})
			}
		}
		for i := 0; i < r.N(30000, 600000); i++ {
			var a addr
			switch g.Intn(4) {
			case 0:
				a = addr{fmt.Sprintf("%d.%d.%d.%d", g.Intn(256), g.Intn(256), g.Intn(256), g.Intn(256)), port(), "v4"}
			case 1:
				var b [16]byte
				for k := range b {
					if Chance(g, 40) {
						b[k] = byte(g.Intn(256))
					}
				}
				if Chance(g, 15) {
					copy(b[:], []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff})
				}
				ip := netip.AddrFrom16(b)
				s := ip.String()
				if Chance(g, 20) {
					s = ip.StringExpanded()
				}
				if Chance(g, 20) {
					s = strings.ToUpper(s)
				}
				a = addr{s, port(), "v6"}
				if Chance(g, 25) {
					a = addr{s, "", "bare6"}
				}
			case 2:
				a = addr{randCase(g, "localhost"), port(), "localhost"}
			default:
				n := Word(g, Lower+Digits, 1, 12)
				parts := g.Intn(4)
				if Chance(g, 10) {
					n = Word(g, Lower+Digits, 1, 200)
					parts = g.Intn(40)
				}
				for k := parts; k > 0; k-- {
					n += "." + Word(g, Lower+Digits+"-", 1, 8)
				}
				if _, err := netip.ParseAddr(n); err == nil || strings.EqualFold(n, "localhost") {
					continue
				}
				if len(n) > 3 && Chance(g, 10) {
					// an octet out of range
					n = fmt.Sprintf("%d.%d.%d.%d", 256+g.Intn(700), g.Intn(256), g.Intn(256), g.Intn(256))
				}
				a = addr{n, port(), "name"}
			}
			check(r, a)
			if i < 6 {
				r.Sample(a.Class, a.String())
			}
		}
		// a bare IPv6 address cannot have a port
		for i := 0; i < r.N(2000, 20000); i++ {
			var b [16]byte
			for k := range b {
				b[k] = byte(1 + g.Intn(255))
			}
			s := netip.AddrFrom16(b).StringExpanded() + fmt.Sprintf(":%d", g.Intn(65536))
			r.Guard("address", s, func() {
				if address.IsIP(s) || address.IsLocalhost(s) || address.Normalize(s) != s {
					r.Violate("bare6-port", s, "IsIP(%q) = %v, Normalize: %q", s, address.IsIP(s), address.Normalize(s))
				}
			})
			r.Count("bare6_port", 1)
			r.Eval(s)
		}
		// listening on a normalized address binds the port given
		for i := 0; i < r.N(30, 100); i++ {
			free, err := net.Listen("tcp4", "127.0.0.1:0")
			if err != nil {
				break
			}
			p := free.Addr().(*net.TCPAddr).Port
			_ = free.Close()
			norm := address.Normalize(fmt.Sprintf(":%d", p))
			l, err := net.Listen("tcp", norm)
			if err != nil {
				if strings.Contains(err.Error(), "in use") {
					continue
				}
				r.Violate("listen", norm, "net.Listen(%q): %v", norm, err)
				continue
			}
			if got := l.Addr().(*net.TCPAddr).Port; got != p {
				r.Violate("listen", norm, "bound port %d, want %d", got, p)
			}
			r.Count("listened", 1)
			_ = l.Close()
		}
		for _, c := range []string{"none", "localhost", "v4", "v6", "bare6", "name"} {
			r.Floor(c, 100)
		}
	})
}
