//go:build go1.22

package vlib

import "math/rand"

// Registered are the methods of the IANA registry (and some other known ones) that aren't supported.
var Registered = []string{"ACL", "BASELINE-CONTROL", "BIND", "CHECKIN", "CHECKOUT", "COPY", "LABEL", "LINK", "LOCK", "MERGE", "MKACTIVITY", "MKCALENDAR", "MKCOL", "MKREDIRECTREF",
	"MKWORKSPACE", "MOVE", "ORDERPATCH", "PRI", "PROPFIND", "PROPPATCH", "QUERY", "REBIND", "REPORT", "SEARCH", "UNBIND", "UNCHECKOUT", "UNLINK", "UNLOCK", "UPDATE", "UPDATEREDIRECTREF",
	"VERSION-CONTROL", "PURGE", "BREW", "DEBUG", "TRACK", "SUBSCRIBE", "NOTIFY", "Unknown", "UNKNOWN", "M-SEARCH", "SOURCE"}

var supported = map[string]bool{"GET": true, "HEAD": true, "POST": true, "PUT": true, "DELETE": true, "CONNECT": true, "OPTIONS": true, "TRACE": true, "PATCH": true}

// NearMethods are all the tokens one edit away from a supported method, and the registered ones.
func NearMethods() (list []string) {
	const letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.!"
	seen := map[string]bool{}
	add := func(s string) {
		if len(s) > 0 && !supported[s] && !seen[s] {
			seen[s] = true
			list = append(list, s)
		}
	}
	for _, m := range []string{"GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"} {
		for i := 0; i <= len(m); i++ {
			add(m[:i])
			add(m[i:])
			for _, c := range letters {
				add(m[:i] + string(c) + m[i:])
				if i < len(m) {
					add(m[:i] + string(c) + m[i+1:])
				}
			}
			if i < len(m) {
				add(m[:i] + m[i+1:])
			}
			if i+1 < len(m) {
				add(m[:i] + m[i+1:i+2] + m[i:i+1] + m[i+2:])
			}
		}
		add(m + m)
		// all the cases
		for bits := 1; bits < 1<<len(m); bits++ {
			b := []byte(m)
			for i := range b {
				if bits>>i&1 == 1 {
					b[i] |= 0x20
				}
			}
			add(string(b))
		}
	}
	for _, m := range Registered {
		add(m)
	}
	return list
}

var nearMethods = NearMethods()

// NearMethod is a method that is not supported, but looks alike.
func NearMethod(g *rand.Rand) string {
	if g.Intn(3) == 0 {
		return Registered[g.Intn(len(Registered))]
	}
	return nearMethods[g.Intn(len(nearMethods))]
}
