//go:build go1.22

// Monitor of C15: every mutator, middleware, handler, catcher and error handler records its calls; the trace of each
// call of the router is compared with the trace a reference model derives from the registrations.
package main

import (
	"errors"
	"fmt"
	"math/rand"
	"path"
	"reflect"
	"sort"
	"strings"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/method"
	"github.com/indigo-web/indigo/http/status"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
	. "github.com/indigo-web/indigo/internal/zzverif/vsrv"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
)

// trace of one call of the router.
type call struct {
	err      error // nil: OnRequest
	events   []string
	envErr   error
	alias    string
	path     string
	resp     *http.Response
	respCode int
	mws      []string
	by       string
}

type mon struct{ calls []*call }

func (m *mon) log(ev string) { c := m.calls[len(m.calls)-1]; c.events = append(c.events, ev) }

func (m *mon) mw(id, kind string) inbuilt.Middleware {
	return func(next inbuilt.Handler, req *http.Request) *http.Response {
		m.log("> " + id)
		var resp *http.Response
		if kind == "short" {
			resp = req.Respond().Header("X-By", id)
		} else {
			resp = next(req)
		}
		m.log("< " + id)
		return resp.Header("X-Mw", id)
	}
}

func (m *mon) handler(id string) inbuilt.Handler {
	return func(req *http.Request) *http.Response {
		m.log("= " + id)
		c := m.calls[len(m.calls)-1]
		c.envErr, c.alias, c.path = req.Env.Error, strings.Clone(req.Env.AliasFrom), strings.Clone(req.Path)
		return req.Respond().Code(status.Accepted).Header("X-By", id)
	}
}

// shim separates the calls of the router.
type shim struct {
	router.Router
	m *mon
}

func (s shim) finish(resp *http.Response) *http.Response {
	c := s.m.calls[len(s.m.calls)-1]
	if resp != nil {
		f := resp.Reveal()
		c.respCode = int(f.Code)
		for _, h := range f.Headers {
			switch h.Key {
			case "X-Mw":
				c.mws = append(c.mws, h.Value)
			case "X-By":
				c.by = h.Value
			}
		}
	}
	return resp
}

func (s shim) OnRequest(q *http.Request) *http.Response {
	s.m.calls = append(s.m.calls, &call{})
	return s.finish(s.Router.OnRequest(q))
}

func (s shim) OnError(q *http.Request, err error) *http.Response {
	s.m.calls = append(s.m.calls, &call{err: err})
	return s.finish(s.Router.OnError(q, err))
}

// node is the model of a router or group.
type node struct {
	prefix   string
	res      *inbuilt.Resource // the node is a resource
	mws      []string
	muts     []string
	parent   *node
	children []*node
}

// chain are all the middlewares around something registered in the node.
func (n *node) chain() []string {
	if n == nil {
		return nil
	}
	return append(append([]string(nil), n.parent.chain()...), n.mws...)
}

type target struct {
	id  string
	n   *node
	mws []string
}

type model struct {
	root     *node
	nodes    []*node
	routers  []*inbuilt.Router
	routes   map[string]map[string]target // path, method
	catchers map[string]target
	errs     map[status.Code]string
	aliases  map[string]string
	kinds    map[string]string
	seq      int
	log      []string

	resources int
	large     bool
}

func (m *model) id(kind string) string {
	m.seq++
	return fmt.Sprintf("%s%d", kind, m.seq)
}

var codes = []status.Code{inbuilt.AllErrors, status.BadRequest, status.NotFound, status.MethodNotAllowed, status.RequestURITooLong,
	status.HeaderFieldsTooLarge, status.HTTPVersionNotSupported, status.NotImplemented, status.CloseConnection, status.RequestEntityTooLarge, 600, 799}

func build(g *rand.Rand, mn *mon) (*model, *inbuilt.Router) {
	m := &model{routes: map[string]map[string]target{}, catchers: map[string]target{}, errs: map[status.Code]string{}, aliases: map[string]string{}, kinds: map[string]string{}}
	root := inbuilt.New()
	m.root = &node{}
	m.nodes, m.routers = []*node{m.root}, []*inbuilt.Router{root}
	short := Chance(g, 15)
	mk := func(n int) (ids []string, list []inbuilt.Middleware) {
		for ; n > 0; n-- {
			id := m.id("mw")
			kind := "pass"
			if short && Chance(g, 8) {
				kind = "short"
			}
			m.kinds[id] = kind
			ids, list = append(ids, id), append(list, mn.mw(id, kind))
		}
		return
	}
	dyn := Chance(g, 50)
	steps := 4 + g.Intn(Pick(g, []int{6, 20, 40}))
	// now and then much of everything
	large := g.Intn(250) == 0
	if large {
		steps, m.large = 300+g.Intn(400), true
	}
	for ; steps > 0; steps-- {
		i := g.Intn(len(m.nodes))
		if Chance(g, 40) {
			i = 0
		}
		n, r := m.nodes[i], m.routers[i]
		note := func(f string, a ...any) { m.log = append(m.log, fmt.Sprintf("[%s] ", n.prefix)+fmt.Sprintf(f, a...)) }
		step := g.Intn(9)
		if n.res != nil {
			step = 1 + g.Intn(5)
		}
		switch step {
		case 0: // group
			p := "/" + Pick(g, []string{"a", "b", "api", "v1", "ab"})
			if len(n.prefix) > 12 {
				continue
			}
			c := &node{prefix: n.prefix + p, parent: n}
			n.children = append(n.children, c)
			if Chance(g, 40) {
				res := r.Resource(p)
				c.res = &res
				m.nodes, m.routers = append(m.nodes, c), append(m.routers, nil)
				note("resource %s", p)
				continue
			}
			m.nodes, m.routers = append(m.nodes, c), append(m.routers, r.Group(p))
			note("group %s", p)
		case 1, 2: // use
			ids, list := mk(1 + g.Intn(3))
			if large && Chance(g, 10) {
				more, l := mk(g.Intn(60))
				ids, list = append(ids, more...), append(list, l...)
			}
			n.mws = append(n.mws, ids...)
			if n.res != nil {
				again := n.res.Use(list...)
				if Chance(g, 50) {
					n.res = &again
				}
			} else {
				r.Use(list...)
			}
			note("use %v", ids)
		case 3, 4: // route
			p := Pick(g, []string{"/x", "/y", "/x/y", "/z/1", "/", ""})
			if large && Chance(g, 50) {
				p = "/" + Word(g, Lower, 1, 2)
			}
			if n.prefix == "" && p == "" {
				p = "/"
			}
			if n.res != nil {
				p = ""
			}
			full := n.prefix + p
			if len(full) > 1 {
				full = strings.TrimRight(full, "/")
			}
			if dyn && n.res == nil && Chance(g, 30) {
				p = "/{id}/q"
				full = n.prefix + "/{id}/q"
			}
			mt := Pick(g, []string{"GET", "GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS"})
			if _, dup := m.routes[full][mt]; dup {
				continue
			}
			ids, list := mk(g.Intn(3))
			id := m.id("h")
			if m.routes[full] == nil {
				m.routes[full] = map[string]target{}
			}
			m.routes[full][mt] = target{id, n, ids}
			register(n.res, r, Chance(g, 50), mt, p, mn.handler(id), list)
			if n.res != nil && len(n.mws) > 0 {
				m.resources++
			}
			note("route %s %s %v as %s", mt, p, ids, id)
		case 5: // catcher
			p := Pick(g, []string{"/", "/x", "/c", "/ca", "/cat", "/c/d", "/w/", "c"})
			if large && Chance(g, 70) {
				p = "/" + Word(g, "cxw", 1, 5)
			}
			full := path.Join(n.prefix, p)
			if !strings.HasPrefix(full, "/") {
				continue
			}
			if _, dup := m.catchers[full]; dup {
				continue
			}
			ids, list := mk(g.Intn(3))
			id := m.id("c")
			m.catchers[full] = target{id, n, ids}
			if n.res != nil {
				n.res.Catch(p, mn.handler(id), list...)
			} else {
				r.Catch(p, mn.handler(id), list...)
			}
			note("catch %s %v as %s", p, ids, id)
		case 6: // error handler
			id := m.id("e")
			var cs []status.Code
			for k := g.Intn(3); k > 0; k-- {
				cs = append(cs, Pick(g, codes))
			}
			for _, c := range cs {
				m.errs[c] = id
			}
			if len(cs) == 0 {
				m.errs[inbuilt.AllErrors] = id
			}
			r.RouteError(mn.handler(id), cs...)
			note("error %v as %s", cs, id)
		case 7: // mutator
			id := m.id("m")
			n.muts = append(n.muts, id)
			r.Mutator(func(*http.Request) { mn.log("m " + id) })
			note("mutator %s", id)
		case 8: // alias
			from := fmt.Sprintf("/alias%d", m.seq)
			m.seq++
			to := "/x"
			if ks := keys(m.routes); len(ks) > 0 {
				to = strings.ReplaceAll(Pick(g, ks), "{id}", "val")
			}
			if Chance(g, 20) {
				to = "/nowhere"
			}
			m.aliases[n.prefix+from] = to
			r.Alias(from, to)
			note("alias %s %s", from, to)
		}
	}
	return m, root
}

// register registers the handler in a resource or router, in one of the two ways there are.
func register(res *inbuilt.Resource, r *inbuilt.Router, shortcut bool, mt, p string, h inbuilt.Handler, mws []inbuilt.Middleware) {
	meth := map[string]method.Method{"GET": method.GET, "POST": method.POST, "PUT": method.PUT, "DELETE": method.DELETE, "PATCH": method.PATCH, "OPTIONS": method.OPTIONS}[mt]
	switch {
	case res != nil && !shortcut:
		res.Route(meth, h, mws...)
	case res != nil:
		map[string]func(inbuilt.Handler, ...inbuilt.Middleware) inbuilt.Resource{"GET": res.Get, "POST": res.Post, "PUT": res.Put,
			"DELETE": res.Delete, "PATCH": res.Patch, "OPTIONS": res.Options}[mt](h, mws...)
	case !shortcut:
		r.Route(meth, p, h, mws...)
	default:
		map[string]func(string, inbuilt.Handler, ...inbuilt.Middleware) *inbuilt.Router{"GET": r.Get, "POST": r.Post, "PUT": r.Put,
			"DELETE": r.Delete, "PATCH": r.Patch, "OPTIONS": r.Options}[mt](p, h, mws...)
	}
}

// route finds the target; sure is false if the statement of routing leaves it open.
func (m *model) find(p string) (map[string]target, bool) {
	if len(p) > 1 {
		p = strings.TrimRight(p, "/")
		if p == "" {
			p = "/"
		}
	}
	if t, ok := m.routes[p]; ok {
		return t, true
	}
	segs := strings.Split(p, "/")
	var found map[string]target
	for k, t := range m.routes {
		if !strings.Contains(k, "{") {
			continue
		}
		ks := strings.Split(k, "/")
		if len(ks) != len(segs) {
			continue
		}
		ok := true
		for i := range ks {
			if ks[i] != segs[i] && (ks[i] != "{id}" || segs[i] == "") {
				ok = false
			}
		}
		if ok {
			found = t
		}
	}
	if found != nil {
		// a literal sibling of a template segment: only unambiguous cases are judged
		for k := range m.routes {
			ks := strings.Split(k, "/")
			n := 0
			for n < len(ks) && n < len(segs) && ks[n] == segs[n] {
				n++
			}
			if n >= len(segs)-1 && !strings.HasSuffix(p, "/q") || n > 1 && !strings.Contains(k, "{") {
				return nil, false
			}
		}
	}
	return found, true
}

// wrap is the trace of middlewares around an inner handler.
func (m *model) wrap(mws []string, inner string) (evs, ids []string, by string) {
	for i, id := range mws {
		if m.kinds[id] == "short" {
			evs = append(evs, "> "+id, "< "+id)
			ids = append([]string{id}, ids...)
			by = id
			for j := i - 1; j >= 0; j-- {
				evs = append(evs, "< "+mws[j])
				ids = append(ids, mws[j])
			}
			return evs, ids, by
		}
		evs = append(evs, "> "+id)
	}
	if inner != "" {
		evs = append(evs, "= "+inner)
	}
	for j := len(mws) - 1; j >= 0; j-- {
		evs = append(evs, "< "+mws[j])
		ids = append(ids, mws[j])
	}
	return evs, ids, inner
}

func (m *model) onError(code status.Code) (id string) {
	if id, ok := m.errs[code]; ok {
		return id
	}
	if code == status.MethodNotAllowed {
		return "" // the built-in one
	}
	return m.errs[inbuilt.AllErrors]
}

func verify(r *Run, g *rand.Rand) {
	mn := &mon{}
	var m *model
	var root *inbuilt.Router
	var rt router.Router
	m, root = build(g, mn)
	if !r.Guard("initialize", m, func() {
		rt = root.Initialize()
		if again := g.Intn(12); again < 3 {
			// served again, or for several virtual hosts
			first := rt
			for ; again >= 0; again-- {
				rt = root.Initialize()
			}
			if Chance(g, 30) {
				rt = first
			}
			r.Count("initialized_again", 1)
		}
	}) {
		return
	}
	var reqs [][2]string
	var paths []string
	for _, p := range keys(m.routes) {
		paths = append(paths, strings.ReplaceAll(p, "{id}", Pick(g, []string{"val", "x", "zz"})))
	}
	for _, p := range keys(m.catchers) {
		paths = append(paths, p, p+Pick(g, []string{"/", "z", "/deep/er", "at"}))
	}
	for _, p := range keys(m.aliases) {
		paths = append(paths, p)
	}
	for _, n := range m.nodes {
		paths = append(paths, n.prefix+"/none", n.prefix+"/")
	}
	var wire strings.Builder
	for k := 0; k < 30; k++ {
		p := Pick(g, paths)
		if Chance(g, 10) && m.aliases[p] == "" {
			p += "/"
		}
		mt := Pick(g, []string{"GET", "GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS"})
		reqs = append(reqs, [2]string{mt, p})
		wire.WriteString(mt + " " + p + " HTTP/1.1\r\n\r\n")
	}
	bad := Pick(g, []string{"", "BAD / HTTP/1.1\r\n\r\n", "GET / HTTP/1.7\r\n\r\n", "GET /%zz HTTP/1.1\r\n\r\n", "GET / HTTP/1.1\r\n" + strings.Repeat("k", 300) + ": v\r\n\r\n",
		"GET /" + strings.Repeat("u", 70000) + " HTTP/1.1\r\n\r\n", "POST /x HTTP/1.1\r\nContent-Length: 3\r\n\r\nab"})
	wire.WriteString(bad)
	c := map[string]any{"registrations": m.log, "bad": bad}
	conn := &Conn{In: []byte(wire.String())}
	if !Serve(r, "serve", c, config.Default(), conn, shim{rt, mn}) {
		return
	}
	if Chance(g, 30) {
		// an error that is no HTTP error
		conn2 := &Conn{In: []byte("GET / HTTP/1.1\r\n\r\n")}
		inner := shim{rt, mn}
		var e error = errPlain
		if Chance(g, 60) {
			// one with an unusual code or with a message of its own
			e = status.NewError(Pick(g, append([]status.Code{600, 799, 999, 418, 599, 404, 405, 503}, codes[1:]...)), Word(g, Lower, 0, 9))
			r.Count("foreign_errors", 1)
		}
		Serve(r, "plain-error", c, config.Default(), conn2, Router{Req: func(q *http.Request) *http.Response { return inner.OnError(q, e) },
			Err: func(q *http.Request, err error) *http.Response { return http.Error(q, err) }})
	}
	r.Count("resource_routes", int64(m.resources))
	n := 0
	for ci, cl := range mn.calls {
		cs := map[string]any{"registrations": m.log, "call": ci}
		// mutators first, each exactly once, those of one router in their order
		i := 0
		seen := map[string]int{}
		for ; i < len(cl.events) && strings.HasPrefix(cl.events[i], "m "); i++ {
			if _, dup := seen[cl.events[i][2:]]; dup {
				r.Violate("mutator-twice", cs, "mutator %s ran more than once: %q", cl.events[i], cl.events)
				return
			}
			seen[cl.events[i][2:]] = i
		}
		for _, nd := range m.nodes {
			last := -1
			for _, id := range nd.muts {
				at, ok := seen[id]
				if !ok {
					r.Violate("mutator-missing", cs, "mutator %s of %q did not run before the routing: %q", id, nd.prefix, cl.events)
					return
				}
				if at < last {
					r.Violate("mutator-order", cs, "mutators of %q ran out of order: %q", nd.prefix, cl.events)
					return
				}
				last = at
			}
		}
		r.Count("mutator_calls", int64(i))
		rest := cl.events[i:]
		var wantEv, wantMw []string
		var by, what, alias string
		var wantErr error
		wantCode := int(status.Accepted)
		errHandled := func(code status.Code, err error) {
			id := m.onError(code)
			wantEv, wantMw, by = m.wrap(m.root.mws, id)
			what = fmt.Sprintf("error %d", code)
			if id == "" && by == "" {
				wantCode = int(code)
			}
			if id != "" && by == id {
				wantErr = err
			}
			r.Count("errors", 1)
			if id != "" {
				r.Count("custom_errors", 1)
			}
		}
		if cl.err == errPlain {
			what, wantCode = "plain error", 500
			r.Count("plain_errors", 1)
		} else if cl.err != nil {
			he, ok := cl.err.(status.HTTPError)
			if !ok {
				r.Violate("error-kind", cs, "the router got %T %v", cl.err, cl.err)
				return
			}
			errHandled(he.Code, cl.err)
		} else {
			if n >= len(reqs) {
				// the request with the truncated body
				continue
			}
			mt, p := reqs[n][0], reqs[n][1]
			n++
			if to, ok := m.aliases[p]; ok {
				alias, p = p, to
				r.Count("aliased", 1)
			}
			t, sure := m.find(p)
			if !sure {
				r.Count("ambiguous_skipped", 1)
				continue
			}
			norm := strings.TrimRight(p, "/")
			if norm == "" {
				norm = "/"
			}
			cs["request"] = reqs[n-1]
			switch {
			case t == nil:
				best := ""
				for pre := range m.catchers {
					if strings.HasPrefix(norm, pre) && len(pre) > len(best) {
						best = pre
					}
				}
				if best != "" {
					ct := m.catchers[best]
					wantEv, wantMw, by = m.wrap(append(ct.n.chain(), ct.mws...), ct.id)
					what = "catcher " + best
					r.Count("caught", 1)
				} else {
					errHandled(status.NotFound, status.ErrNotFound)
				}
			default:
				h, ok := t[mt]
				if !ok {
					errHandled(status.MethodNotAllowed, status.ErrMethodNotAllowed)
				} else {
					wantEv, wantMw, by = m.wrap(append(h.n.chain(), h.mws...), h.id)
					what = "route"
					r.Count("routed", 1)
					if len(wantEv) > 5 {
						r.Count("deep_chains", 1)
					}
				}
			}
		}
		if by != "" && m.kinds[by] == "short" {
			wantCode = 200
			r.Count("short_circuits", 1)
		}
		r.Eval(fmt.Sprint(m.log, reqs, ci))
		if fmt.Sprint(rest) != fmt.Sprint(wantEv) {
			r.Violate("trace/"+strings.Fields(what)[0], cs, "%s: trace %q, expected %q", what, rest, wantEv)
			return
		}
		if fmt.Sprint(cl.mws) != fmt.Sprint(wantMw) || cl.by != by {
			r.Violate("response/"+strings.Fields(what)[0], cs, "%s: response passed %q made by %q, expected %q by %q", what, cl.mws, cl.by, wantMw, by)
			return
		}
		if cl.respCode != wantCode {
			r.Violate("code/"+strings.Fields(what)[0], cs, "%s: response code %d, expected %d", what, cl.respCode, wantCode)
			return
		}
		if wantErr != nil && cl.envErr != wantErr {
			r.Violate("error-value", cs, "%s: the handler sees the error %v, expected %v", what, cl.envErr, wantErr)
			return
		}
		if strings.HasPrefix(by, "h") && cl.envErr != nil {
			r.Violate("error-value", cs, "%s: the handler sees the error %v", what, cl.envErr)
			return
		}
		if strings.HasPrefix(by, "h") && cl.alias != alias {
			r.Violate("alias-from", cs, "%s: AliasFrom is %q, expected %q", what, cl.alias, alias)
			return
		}
		r.Sample(strings.Fields(what)[0], map[string]any{"registrations": m.log, "trace": rest})
	}
	if n < len(reqs) {
		r.Violate("calls", c, "only %d of %d requests came to the router", n, len(reqs))
	}
}

var errPlain = errors.New("any other error")

func keys[V any](m map[string]V) (list []string) {
	for k := range m {
		list = append(list, k)
	}
	sort.Strings(list)
	return list
}

// twice: a prefix has one catcher.
func twice(r *Run, g *rand.Rand) {
	seen := map[string]bool{}
	var list []string
	rt := inbuilt.New()
	prefix := ""
	if Chance(g, 40) {
		prefix = "/g"
		rt = rt.Group("/g")
	}
	for n := 2 + g.Intn(4); n > 0; n-- {
		p := Pick(g, []string{"/a", "/b", "/a/b", "/c", "/", "/"})
		if Chance(g, 20) && p != "/" {
			p += "/"
		}
		list = append(list, prefix+p)
		refused := false
		func() {
			defer func() { refused = recover() != nil }()
			rt.Catch(p, func(req *http.Request) *http.Response { return nil })
		}()
		key := path.Join(prefix, p)
		if refused != seen[key] {
			r.Violate("catcher-twice", list, "the catcher %q, registered before: %v, refused: %v", p, seen[key], refused)
		}
		if refused {
			r.Count("catchers_refused", 1)
		}
		seen[key] = true
	}
	r.Eval(fmt.Sprint("twice", list))
}

// chain of aliases, in the order of registration: routed as the last one, AliasFrom is the path of the request.
func chain(r *Run, g *rand.Rand) {
	n := 1 + g.Intn(4)
	var seen []string
	rt := inbuilt.New()
	prefix := ""
	in := rt
	if Chance(g, 40) {
		prefix = Pick(g, []string{"/g", "/g/h"})
		in = rt.Group(prefix)
	}
	names := []string{}
	for i := 0; i <= n; i++ {
		names = append(names, fmt.Sprintf("%s/n%d", prefix, i))
	}
	for i := 0; i < n; i++ {
		in.Alias(fmt.Sprintf("/n%d", i), names[i+1])
	}
	in.Get(fmt.Sprintf("/n%d", n), func(q *http.Request) *http.Response {
		seen = append(seen, strings.Clone(q.Path), strings.Clone(q.Env.AliasFrom))
		return q.Respond().String("the end")
	})
	var stream []byte
	var want []string
	for k := 1 + g.Intn(4); k > 0; k-- {
		from := g.Intn(n + 1)
		stream = fmt.Appendf(stream, "GET %s HTTP/1.1\r\n\r\n", names[from])
		alias := names[from]
		if from == n {
			alias = ""
		}
		want = append(want, names[n], alias)
	}
	c := map[string]any{"stream": Q(stream), "aliases": names}
	r.Step("%v", c)
	if !Serve(r, "chain", c, config.Default(), &Conn{In: stream}, rt.Initialize()) {
		return
	}
	r.Eval(fmt.Sprint("chain", c))
	r.Count("chains", 1)
	if !reflect.DeepEqual(seen, want) {
		r.Violate("alias-chain", c, "paths and AliasFrom are %q, expected %q", seen, want)
	}
}

func main() {
	Main("C15", "random trees of groups with middlewares, mutators, aliases, catchers and error handlers x requests and malformed input", func(r *Run) {
		g := r.Rng("trees")
		for i := 0; i < r.N(6000, 100000); i++ {
			r.Step("tree %d", i)
			verify(r, g)
		}
		for i := 0; i < r.N(2000, 20000); i++ {
			twice(r, g)
			chain(r, g)
		}
		for _, n := range []string{"catchers_refused", "routed", "caught", "custom_errors", "errors", "mutator_calls", "aliased", "deep_chains", "short_circuits", "plain_errors"} {
			r.Floor(n, 300)
		}
		r.Floor("initialized_again", 100)
		r.Floor("resource_routes", 300)
	})
}
