//go:build go1.22

// Monitor of C14: random route tables are registered with the real router and with a list-scanning reference
// router; the handler that ran, its parameters and the response of every request on a served connection must agree.
package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/method"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
	. "github.com/indigo-web/indigo/internal/zzverif/vsrv"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/inbuilt/uri"
)

var methods = map[string]method.Method{"GET": method.GET, "HEAD": method.HEAD, "POST": method.POST, "PUT": method.PUT, "DELETE": method.DELETE,
	"CONNECT": method.CONNECT, "OPTIONS": method.OPTIONS, "TRACE": method.TRACE, "PATCH": method.PATCH}

// route is one registered path with its methods.
type route struct {
	segs    []string // "{name}" for templates
	methods map[string]string
}

func dynamic(s string) bool { return strings.HasPrefix(s, "{") && strings.HasSuffix(s, "}") }

func (t route) String() string { return "/" + strings.Join(t.segs, "/") }

type table struct {
	routes []*route
	byPath map[string]*route
}

func (t *table) get(segs []string) *route {
	k := "/" + strings.Join(segs, "/")
	if t.byPath[k] == nil {
		t.byPath[k] = &route{segs: segs, methods: map[string]string{}}
		t.routes = append(t.routes, t.byPath[k])
	}
	return t.byPath[k]
}

// split returns the segments of a request path; trailing slashes are insignificant.
func split(p string) []string {
	p = strings.TrimRight(p, "/")
	if p == "" {
		return nil
	}
	return strings.Split(p[1:], "/")
}

// match finds the route of a path. sure is false if segment-wise precedence of literals leads into a dead end while
// another route matches: nothing is claimed then.
func (t *table) match(p string) (found *route, params [][2]string, sure bool) {
	segs := split(p)
	cand := make([]*route, 0, len(t.routes))
	any := false
	for _, r := range t.routes {
		cand = append(cand, r)
		if len(r.segs) == len(segs) {
			ok := true
			for i, s := range r.segs {
				if dynamic(s) && segs[i] == "" || !dynamic(s) && s != segs[i] {
					ok = false
				}
			}
			any = any || ok
		}
	}
	for i, s := range segs {
		var lit, dyn []*route
		for _, r := range cand {
			if len(r.segs) <= i {
				continue
			}
			if r.segs[i] == s && !dynamic(r.segs[i]) {
				lit = append(lit, r)
			} else if dynamic(r.segs[i]) && s != "" {
				dyn = append(dyn, r)
			}
		}
		if len(lit) > 0 {
			cand = lit
		} else {
			cand = dyn
		}
	}
	for _, r := range cand {
		if len(r.segs) == len(segs) {
			found = r
		}
	}
	if found == nil {
		return nil, nil, !any
	}
	for i, s := range found.segs {
		if dynamic(s) && s != "{}" {
			params = append(params, [2]string{s[1 : len(s)-1], segs[i]})
		}
	}
	return found, params, true
}

type env struct {
	hits []string
	pars [][][2]string
}

func (e *env) handler(id string) inbuilt.Handler {
	return func(req *http.Request) *http.Response {
		e.hits = append(e.hits, id)
		var ps [][2]string
		for _, p := range req.Params.Unwrap() {
			ps = append(ps, [2]string{strings.Clone(p.Key), strings.Clone(p.Value)})
		}
		for _, p := range ps {
			first := ""
			for _, q := range ps {
				if strings.EqualFold(q[0], p[0]) {
					first = q[1]
					break
				}
			}
			if v := req.Params.Value(p[0]); v != first {
				ps = append(ps, [2]string{"lookup of " + p[0], v})
			}
		}
		e.pars = append(e.pars, ps)
		return req.Respond().Header("X-Handler", id).String("by " + id)
	}
}

func short(r *inbuilt.Router, m, p string, h inbuilt.Handler) {
	switch m {
	case "GET":
		r.Get(p, h)
	case "HEAD":
		r.Head(p, h)
	case "POST":
		r.Post(p, h)
	case "PUT":
		r.Put(p, h)
	case "DELETE":
		r.Delete(p, h)
	case "CONNECT":
		r.Connect(p, h)
	case "OPTIONS":
		r.Options(p, h)
	case "TRACE":
		r.Trace(p, h)
	case "PATCH":
		r.Patch(p, h)
	}
}

func res(r inbuilt.Resource, m string, h inbuilt.Handler) {
	switch m {
	case "GET":
		r.Get(h)
	case "HEAD":
		r.Head(h)
	case "POST":
		r.Post(h)
	case "PUT":
		r.Put(h)
	case "DELETE":
		r.Delete(h)
	case "CONNECT":
		r.Connect(h)
	case "OPTIONS":
		r.Options(h)
	case "TRACE":
		r.Trace(h)
	case "PATCH":
		r.Patch(h)
	}
}

// gen makes a route table.
func gen(g *rand.Rand, dyn int, wide, huge bool) *table {
	t := &table{byPath: map[string]*route{}}
	alphabet := []string{"a", "b", "c", "ab", "abc", "A", "user", "users", "static", "x.html", "1", "b-c", "тест", "long" + strings.Repeat("g", 60)}
	names := map[string]string{}
	n := 1 + g.Intn(Pick(g, []int{2, 6, 14}))
	seg := func(prefix []string) string {
		if Chance(g, dyn) {
			k := fmt.Sprintf("%q", prefix)
			if _, ok := names[k]; !ok {
				names[k] = Pick(g, []string{"id", "name", "x", "user-id", "", "Name", "a", "_id", "_", "0", "a.b", "*", ":id", "имя", "id?", "...", " ", strings.Repeat("long-name-", 4), strings.Repeat("n", 300)})
			}
			return "{" + names[k] + "}"
		}
		if Chance(g, 4) {
			return "" // a segment like any other, unless it's trailing
		}
		return Pick(g, alphabet)
	}
	add := func(segs []string) {
		for len(segs) > 0 && segs[len(segs)-1] == "" {
			segs = segs[:len(segs)-1]
		}
		r := t.get(append([]string(nil), segs...))
		for k := 1 + g.Intn(Pick(g, []int{1, 3, 9})); k > 0; k-- {
			m := Pick(g, AllMethods)
			if Chance(g, 40) {
				m = "GET"
			}
			r.methods[m] = fmt.Sprintf("%s %s", m, r)
		}
	}
	for ; n > 0; n-- {
		var segs []string
		for d := g.Intn(5); d > 0; d-- {
			segs = append(segs, seg(segs))
		}
		add(segs)
	}
	if huge {
		// deep paths with many parameters
		for n := 3; n > 0; n-- {
			var segs []string
			for d := 20 + g.Intn(280); d > 0; d-- {
				segs = append(segs, seg(segs))
			}
			add(segs)
		}
	}
	if wide {
		// more siblings than the tree keeps in an array
		var prefix []string
		for d := g.Intn(3); d > 0; d-- {
			prefix = append(prefix, seg(prefix))
		}
		k := 25 + g.Intn(40)
		if huge {
			k = 300 + g.Intn(500)
		}
		dbl := Chance(g, 25) // every one is a prefix of the others
		for i := 0; i < k; i++ {
			segs := append(append([]string(nil), prefix...), fmt.Sprintf("%s%d", Pick(g, []string{"s", "t", "sib"}), i))
			if dbl && i < 300 {
				segs[len(prefix)] = strings.Repeat("s", i)
			}
			if Chance(g, 20) {
				segs = append(segs, seg(segs))
			}
			add(segs)
		}
	}
	return t
}

// register builds the real router, spreading the routes over groups and resources.
func register(g *rand.Rand, t *table, e *env) (inbuilt.Router, router.Router) {
	root := inbuilt.New()
	groups := map[string]*inbuilt.Router{"[]": root}
	var group func(segs []string) *inbuilt.Router
	group = func(segs []string) *inbuilt.Router {
		k := fmt.Sprintf("%q", segs)
		if groups[k] != nil && !Chance(g, 20) {
			return groups[k]
		}
		if len(segs) == 0 {
			return root
		}
		cut := g.Intn(len(segs))
		gr := group(segs[:cut]).Group("/" + strings.Join(segs[cut:], "/"))
		groups[k] = gr
		return gr
	}
	type item struct {
		r *route
		m string
	}
	var items []item
	for _, r := range t.routes {
		for m := range r.methods {
			items = append(items, item{r, m})
		}
	}
	sort.Slice(items, func(i, j int) bool { return items[i].r.methods[items[i].m] < items[j].r.methods[items[j].m] })
	g.Shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
	for _, it := range items {
		h := e.handler(it.r.methods[it.m])
		cut := 0
		if Chance(g, 50) {
			cut = g.Intn(len(it.r.segs) + 1)
		}
		gr, rest := group(it.r.segs[:cut]), "/"+strings.Join(it.r.segs[cut:], "/")
		if cut == len(it.r.segs) && cut > 0 && Chance(g, 50) {
			rest = ""
		}
		if Chance(g, 20) {
			rest += Pick(g, []string{"/", "//"})
		}
		switch g.Intn(4) {
		case 0:
			gr.Route(methods[it.m], rest, h)
		case 1:
			if cut == len(it.r.segs) && cut == 0 {
				rest = "/"
			}
			if Chance(g, 30) {
				gr.Resource(rest).Route(methods[it.m], h)
			} else {
				res(gr.Resource(rest), it.m, h)
			}
		default:
			short(gr, it.m, rest, h)
		}
	}
	return *root, root.Initialize()
}

// reqPath makes a request path: instances of routes and near misses.
func reqPath(g *rand.Rand, t *table) string {
	r := Pick(g, t.routes)
	segs := make([]string, 0, 8)
	word := func() string {
		return Pick(g, []string{"a", "b", "user", "users", "zz", "42", "%", "{id}", "{}", "..", ".", "s1", "a b", "ключ", "A", Word(g, pathAlpha, 1, 20), strings.Repeat("v", 200)})
	}
	for _, s := range r.segs {
		if dynamic(s) {
			s = word()
		}
		segs = append(segs, s)
	}
	switch g.Intn(10) {
	case 0:
		segs = append(segs, word())
	case 1:
		if len(segs) > 0 {
			segs = segs[:len(segs)-1]
		}
	case 2:
		if len(segs) > 0 {
			i := g.Intn(len(segs))
			segs[i] = Pick(g, []string{"", segs[i] + "x", segs[i][:len(segs[i])/2], strings.ToUpper(segs[i]), word(), "/", "/" + segs[i]})
		}
	case 3:
		if len(segs) > 0 {
			i := g.Intn(len(segs))
			o := Pick(g, t.routes)
			if len(o.segs) > 0 {
				segs[i] = Pick(g, o.segs)
			}
		}
	case 4:
		return Pick(g, []string{"/", "//", "///", "/{id}", "/%", "/" + word(), "/" + word() + "/" + word()})
	}
	p := "/" + strings.Join(segs, "/")
	if Chance(g, 25) {
		p += strings.Repeat("/", 1+g.Intn(3))
	}
	return p
}

const pathAlpha = Alnum + "-._~!$&'()*+,;=:@"

func encode(g *rand.Rand, p string) string {
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		c := p[i]
		if c != '/' && (strings.IndexByte(pathAlpha, c) == -1 || Chance(g, 3)) {
			b.WriteString(Escape(g, c))
		} else {
			b.WriteByte(c)
		}
	}
	return b.String()
}

func verify(r *Run, g *rand.Rand, t *table, mode string) {
	var defs []string
	for _, rt := range t.routes {
		for m := range rt.methods {
			defs = append(defs, m+" "+rt.String())
		}
	}
	sort.Strings(defs)
	c := map[string]any{"routes": defs}
	e := &env{}
	var rt router.Router
	if !r.Guard("register", c, func() { _, rt = register(g, t, e) }) {
		return
	}
	isDyn := false
	for _, x := range t.routes {
		for _, s := range x.segs {
			isDyn = isDyn || dynamic(s)
		}
	}
	if isDyn {
		r.Count("dynamic_tables", 1)
	} else {
		r.Count("static_tables", 1)
	}

	type want struct {
		m, p   string
		code   int
		id     string
		params [][2]string
		allow  []string
		skip   bool
	}
	var ws []want
	var wire strings.Builder
	var ms []string
	for k := 0; k < 40; k++ {
		p := reqPath(g, t)
		w := want{m: Pick(g, AllMethods), p: p}
		if Chance(g, 50) {
			w.m = Pick(g, []string{"GET", "HEAD", "POST"})
		}
		found, params, sure := t.match(p)
		switch {
		case !sure:
			w.skip = true
		case found == nil:
			w.code = 404
		default:
			id, ok := found.methods[w.m]
			if !ok && w.m == "HEAD" {
				id, ok = found.methods["GET"]
			}
			if ok {
				w.code, w.id, w.params = 200, id, params
			} else if w.m == "TRACE" {
				w.code = 200
			} else {
				w.code = 405
				for m := range found.methods {
					w.allow = append(w.allow, m)
				}
				sort.Strings(w.allow)
			}
		}
		if w.skip {
			r.Count("ambiguous_skipped", 1)
			continue
		}
		ws, ms = append(ws, w), append(ms, w.m)
		wire.WriteString(w.m + " " + encode(g, p) + " HTTP/1.1\r\n\r\n")
	}
	// a method that doesn't exist is registered nowhere
	other := NearMethod(g) + " " + encode(g, reqPath(g, t))
	conn := &Conn{In: []byte(wire.String() + other + " HTTP/1.1\r\n\r\n")}
	if !Serve(r, "serve", c, config.Default(), conn, rt) {
		return
	}
	rs, err := ParseAll(conn.Out.Bytes(), append(ms, "GET"))
	if err == nil && len(rs) == len(ws)+1 {
		if last := rs[len(ws)]; last.Code < 400 || len(last.Get("X-Handler")) > 0 {
			c["request"] = other
			r.Violate("unknown-method", c, "%q was answered %d by the handler %q", other, last.Code, last.Get("X-Handler"))
			return
		}
		rs = rs[:len(ws)]
		r.Count("unknown_methods", 1)
	}
	if err != nil || len(rs) != len(ws) {
		c["stream"] = Q(wire.String())
		r.Violate("responses", c, "%d responses for %d requests (%v)", len(rs), len(ws), err)
		return
	}
	hit := 0
	for i, w := range ws {
		cs := map[string]any{"routes": defs, "request": w.m + " " + Q(w.p), "index": i}
		r.Eval(fmt.Sprint(defs, w.m, w.p))
		got := rs[i]
		gotID := ""
		if h := got.Get("X-Handler"); len(h) > 0 {
			gotID = h[0]
		}
		if got.Code != w.code {
			r.Violate(fmt.Sprintf("%s/code-%d-not-%d", mode, got.Code, w.code), cs, "%s %q answered %d (handler %q), expected %d by %q", w.m, w.p, got.Code, gotID, w.code, w.id)
			return
		}
		if gotID != w.id {
			r.Violate(mode+"/handler", cs, "%s %q was handled by %q, expected %q", w.m, w.p, gotID, w.id)
			return
		}
		r.Count(fmt.Sprint("code_", w.code), 1)
		if w.id != "" {
			if hit >= len(e.hits) || e.hits[hit] != w.id {
				r.Violate(mode+"/calls", cs, "handlers called: %q, expected %q as call %d", e.hits, w.id, hit)
				return
			}
			if fmt.Sprintf("%q", e.pars[hit]) != fmt.Sprintf("%q", w.params) {
				r.Violate(mode+"/params", cs, "%s %q: parameters %q, expected %q", w.m, w.p, e.pars[hit], w.params)
				return
			}
			if len(w.params) > 0 {
				r.Count("with_params", 1)
			}
			if _, ok := t.byPath[w.id[strings.IndexByte(w.id, ' ')+1:]].methods["HEAD"]; w.m == "HEAD" && !ok {
				r.Count("head_as_get", 1)
			}
			if strings.HasSuffix(w.p, "/") && len(w.p) > 1 {
				r.Count("trailing_slashes", 1)
			}
			hit++
		}
		if w.code == 405 {
			a := strings.Split(strings.Join(got.Get("Allow"), ","), ",")
			for i := range a {
				a[i] = strings.TrimSpace(a[i])
			}
			sort.Strings(a)
			if fmt.Sprint(a) != fmt.Sprint(w.allow) {
				r.Violate(mode+"/allow", cs, "%s %q: Allow is %q, expected %q", w.m, w.p, got.Get("Allow"), w.allow)
				return
			}
		}
		r.Sample(fmt.Sprint(mode, w.code), cs)
	}
	if hit != len(e.hits) {
		r.Violate(mode+"/calls", c, "%d handler calls, expected %d: %q", len(e.hits), hit, e.hits)
	}
}

// duplicates: the same route registered twice is refused, wherever it is registered.
func duplicates(r *Run, g *rand.Rand) {
	segs := []string{"a", "b", Pick(g, []string{"{x}", "c"})}
	m := Pick(g, AllMethods)
	refused := false
	root := inbuilt.New()
	e := &env{}
	var others []string
	for _, i := range g.Perm(len(AllMethods)) {
		if AllMethods[i] != m {
			others = append(others, AllMethods[i])
		}
	}
	func() {
		defer func() { refused = recover() != nil }()
		base, common := root, 0
		for common < len(segs) && Chance(g, 40) {
			base, common = base.Group("/"+segs[common]), common+1
		}
		for i := 0; i < 2; i++ {
			gr, rest := base, segs[common:]
			for len(rest) > 0 && Chance(g, 60) {
				cut := 1 + g.Intn(len(rest))
				gr, rest = gr.Group("/"+strings.Join(rest[:cut], "/")), rest[cut:]
			}
			path := "/" + strings.Join(rest, "/")
			if Chance(g, 20) {
				path += "/"
			}
			if Chance(g, 30) {
				res(gr.Resource(path), m, e.handler("x"))
			} else {
				short(gr, m, path, e.handler("x"))
			}
			for k := g.Intn(3); k > 0; k-- {
				// others at the same path, which don't clash
				if len(others) > 0 {
					short(gr, others[0], path, e.handler("y"))
					others = others[1:]
				}
			}
		}
		root.Initialize()
	}()
	r.Eval(fmt.Sprint("dup", segs, m))
	r.Count("duplicates", 1)
	if !refused {
		r.Violate("duplicate", nil, "%s %v registered twice isn't refused", m, segs)
	}
}

// malformed: templates that cannot be registered.
func malformed(r *Run, g *rand.Rand) {
	good := func() string { return Pick(g, []string{"", "/a", "/a/b", "/{x}", "/a/{x}"}) }
	w := func() string { return Word(g, Lower, 1, 3) }
	t := good() + Pick(g, []string{"/{" + w(), "/{" + w() + "{" + w() + "}", "/{" + w() + "/" + w() + "}", "/" + w() + "{" + w() + "}", "/{" + w() + "}" + w(), "/{" + w() + "}{" + w() + "}", "/{", "/{" + w() + "}}",
		"/" + w() + "{", "/{{" + w() + "}", "/{{" + w() + "}}"})
	if Chance(g, 40) && !strings.HasSuffix(t, "{") {
		t += good()
	}
	if Chance(g, 15) {
		t = w() + good()
	}
	refused := false
	func() {
		defer func() { refused = recover() != nil }()
		root := inbuilt.New()
		root.Get("/ok", (&env{}).handler("ok"))
		if Chance(g, 50) {
			root.Get("/other/{o}", (&env{}).handler("other"))
		}
		short(root, Pick(g, AllMethods), t, (&env{}).handler("x"))
		root.Initialize()
	}()
	r.Eval("malformed" + t)
	r.Count("malformed", 1)
	if !refused {
		r.Violate("malformed", t, "the template %q is accepted", t)
	}
}

// names: templates that name the same segment differently are refused, or work with their own names.
func names(r *Run, g *rand.Rand) {
	pre := Pick(g, []string{"", "/a", "/a/b", "/{p}"})
	n1, n2 := Word(g, Lower, 1, 3), Word(g, Upper, 1, 3)
	t1, t2 := pre+"/{"+n1+"}"+Pick(g, []string{"", "/one"}), pre+"/{"+n2+"}/two"
	got := ""
	h := func(id string) inbuilt.Handler {
		return func(req *http.Request) *http.Response {
			got = id
			for _, p := range req.Params.Unwrap() {
				got += " " + p.Key + "=" + p.Value
			}
			return req.Respond()
		}
	}
	refused := false
	var rt router.Router
	func() {
		defer func() { refused = recover() != nil }()
		rt = inbuilt.New().Get(t1, h("1")).Get(t2, h("2")).Initialize()
	}()
	r.Eval("names" + t1 + t2)
	if refused {
		r.Count("names_refused", 1)
		return
	}
	for i, t := range []string{t1, t2} {
		p := strings.NewReplacer("{p}", "pv", "{"+n1+"}", "v1", "{"+n2+"}", "v2").Replace(t)
		got = ""
		want := fmt.Sprint(i + 1)
		if pre == "/{p}" {
			want += " p=pv"
		}
		want += " " + []string{n1, n2}[i] + "=v" + fmt.Sprint(i+1)
		if !Serve(r, "names", t, config.Default(), &Conn{In: []byte("GET " + p + " HTTP/1.1\r\n\r\n")}, rt) {
			return
		}
		if got != want {
			r.Violate("names", []string{t1, t2}, "a request for %s gives %q, expected %q", p, got, want)
			return
		}
	}
	r.Count("names_served", 1)
}

func main() {
	Main("C14", "random static, dynamic and mixed route tables over groups and resources x requests derived from them; the normalization exhaustively on short paths", func(r *Run) {
		Strings("/a.{", r.N(7, 9), func(s string) {
			want := strings.TrimRight(s, "/")
			if want == "" && s != "" {
				want = "/"
			}
			r.Eval("norm" + s)
			if got := uri.Normalize(s); got != want {
				r.Violate("normalize", s, "path %q normalized to %q, expected %q", s, got, want)
			}
		})
		g := r.Rng("tables")
		for i := 0; i < 300; i++ {
			k := Pick(g, []int{8, 16, 32, 64, 100, 128, 256, 1000, 5000, 66000}) + g.Intn(3) - 1
			p := Pick(g, []string{"", "/", "/a", "/a/b", "a"}) + strings.Repeat("/", k)
			if Chance(g, 30) {
				p = "/" + strings.Repeat("x/", k) + "y"
			}
			want := strings.TrimRight(p, "/")
			if want == "" {
				want = "/"
			}
			r.Eval("norm" + p)
			if got := uri.Normalize(p); got != want {
				r.Violate("normalize", Q(p), "a path of %d bytes is normalized to %d bytes, expected %d", len(p), len(got), len(want))
			}
		}
		for i := 0; i < r.N(4000, 60000); i++ {
			r.Step("table %d", i)
			dyn := Pick(g, []int{0, 15, 40, 80})
			huge := i%250 == 100
			if huge {
				r.Count("huge_tables", 1)
			}
			t := gen(g, dyn, i%5 == 0, huge)
			verify(r, g, t, "table")
			if dyn == 0 {
				// the same routes next to a dynamic one
				t2 := &table{byPath: map[string]*route{}}
				for _, x := range t.routes {
					n := t2.get(x.segs)
					n.methods = x.methods
				}
				t2.get([]string{"zzz", "{other}"}).methods["GET"] = "GET /zzz/{other}"
				verify(r, g, t2, "mixed")
			}
		}
		for i := 0; i < r.N(500, 5000); i++ {
			duplicates(r, g)
		}
		for i := 0; i < r.N(2000, 20000); i++ {
			malformed(r, g)
		}
		for i := 0; i < r.N(500, 5000); i++ {
			names(r, g)
		}
		for _, n := range []string{"static_tables", "dynamic_tables", "code_200", "code_404", "code_405", "unknown_methods", "with_params", "trailing_slashes", "head_as_get"} {
			r.Floor(n, 300)
		}
	})
}
