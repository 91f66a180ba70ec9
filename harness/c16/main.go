//go:build go1.22

// Monitor of C16: a scratch tree with canary files around the served root. Every response is compared with the file
// the path denotes; concurrent connections run under the race detector.
package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	. "github.com/indigo-web/indigo/internal/zzverif/vlib"
	. "github.com/indigo-web/indigo/internal/zzverif/vsrv"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
)

const canary = "CANARY: a file outside of the root"

var types = map[string][]string{
	".html": {"text/html"}, ".css": {"text/css"}, ".js": {"text/javascript", "application/javascript"}, ".txt": {"text/plain", "application/octet-stream"}, ".png": {"image/png"},
	".json": {"application/json"}, "": {"application/octet-stream"}, ".unknownext": {"application/octet-stream"}, ".hidden": {"application/octet-stream"},
	".gif": {"image/gif"}, ".svg": {"image/svg+xml"}, ".jpg": {"image/jpeg"}, ".mjs": {"text/javascript", "application/javascript"}, ".wasm": {"application/wasm"}, ".pdf": {"application/pdf"},
	".xml": {"text/xml", "application/xml"}, ".avif": {"image/avif"}, ".htm": {"text/html"}, ".jpeg": {"image/jpeg"}, ".webp": {"image/webp"}, ".gz": {"application/gzip"}, ".sql": {"application/sql"},
	".tzif": {"application/tzif"}, ".yaml": {"application/yaml"}, ".xfdf": {"application/xfdf"}, ".zip": {"application/zip"}, ".zlib": {"application/zlib"}, ".zstd": {"application/zstd"},
	".ico": {"image/vnd.microsoft.icon"}, ".htmlx": {"application/octet-stream"}, ".c": {"application/octet-stream"},
}

// tree creates the files; the map holds what is below the root.
func tree(g *rand.Rand, dir string) (map[string][]byte, error) {
	files := map[string][]byte{}
	for _, n := range []string{"index.html", "a.txt", "noext", ".hidden", "sub/b.css", "sub/deep/c.js", "sub/deep/deeper/d.png", "sp ace.txt", "тест.png", "per%cent.txt",
		"per%2e.txt", "data.json", "i.gif", "i.svg", "sub/i.jpg", "m.mjs", "w.wasm", "f.pdf", "f.xml", "x.unknownext", "empty.txt", "static/inner.txt", "root/inner.txt", "a", "sub/a", "k.avif", "k.htm", "k.jpeg", "sub/k.webp", "k.tar.gz", "k.sql", "k.tzif", "k.yaml", "k.xfdf", "sub/deep/k.zip", "k.zlib", "k.zstd", "favicon.ico", ".ico", "k.htmlx", "k.html.c", "gz", "ico", "g/static/z.txt", "~", "back\\slash.txt", "a.b.c.html",
		"q?mark.txt", "secret.tx", "sub.css/file.html", "-", "trail. ", "new\nline.txt", "long" + strings.Repeat("n", 150) + ".txt", strings.Repeat("d/", 40) + "down.txt",
		strings.Repeat(strings.Repeat("e", 200)+"/", 12) + "far.html"} {
		body := []byte("content of " + n + "\n")
		for k := g.Intn(Pick(g, []int{3, 300, 12000})); k > 0; k-- {
			body = append(body, byte(g.Intn(256)))
		}
		if n == "sub/i.jpg" {
			body = append(body, Bytes(g, 2<<20+g.Intn(1000))...)
		}
		if n == "empty.txt" {
			body = nil
		}
		files[n] = body
	}
	for n, b := range files {
		p := filepath.Join(dir, "site", "root", n)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return nil, err
		}
		if err := os.WriteFile(p, b, 0o644); err != nil {
			return nil, err
		}
	}
	for _, n := range []string{"site/secret.txt", "site/root2/a.txt", "site/rootsecret.txt", "site/index.html", "a.txt", "site/sub/b.css", "site/static/a.txt", "secret.txt", "site/roo/a.txt",
		"site/inner.txt", "site/a.txt", "a", "site/a"} {
		p := filepath.Join(dir, n)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return nil, err
		}
		if err := os.WriteFile(p, []byte(canary+" "+n), 0o644); err != nil {
			return nil, err
		}
	}
	for _, n := range []string{"ro:ot", "we ird:1.d"} {
		if err := os.Symlink("root", filepath.Join(dir, "site", n)); err != nil {
			return nil, err
		}
	}
	return files, os.MkdirAll(filepath.Join(dir, "site", "root", "emptydir"), 0o755)
}

type site struct {
	prefix, root, how string
	rt                router.Router
}

func marker(next inbuilt.Handler, req *http.Request) *http.Response {
	return next(req).Header("X-Marker", "mw")
}

// sites registers the root under all kinds of prefixes.
func sites(dir string) (list []site) {
	abs := filepath.Join(dir, "site", "root")
	for _, root := range []string{abs, abs + "/", "root", "./root", "./root/", "../site/root", "root/", "ro:ot", "./we ird:1.d/"} {
		for _, prefix := range []string{"/static", "/", "/static/", "/a/b/c/long/prefix", "/s", "/root", "/sub"} {
			full := path.Join("/", prefix)
			list = append(list,
				site{full, root, "plain", inbuilt.New().Static(prefix, root).Initialize()},
				site{full, root, "middleware", inbuilt.New().Get("/other/{x}", http.Respond).Static(prefix, root, marker).Initialize()},
			)
			gr := inbuilt.New()
			gr.Group("/g").Static(prefix, root)
			list = append(list, site{path.Join("/g", prefix), root, "group", gr.Initialize()})
			nr := inbuilt.New().Get("/", http.Respond)
			nr.Group("/g").Group("/v1").Use(marker).Static(prefix, root)
			list = append(list, site{path.Join("/g/v1", prefix), root, "nested group", nr.Initialize()})
			rr := inbuilt.New()
			rr.Resource("/res").Static(prefix, root)
			list = append(list, site{path.Join("/res", prefix), root, "resource", rr.Initialize()})
		}
	}
	return list
}

type want struct {
	path    string // decoded
	wire    string
	exact   bool   // the answer is determined
	file    string // the file the path denotes, if any
	request string
	method  string
}

func enc(g *rand.Rand, s string, mode int) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		plain := strings.IndexByte(Alnum+"-._~!$&'()*+,;=:@/", c) != -1
		switch {
		case !plain, mode == 1 && c != '/' && i > 0, mode == 2 && c == '.', mode == 3 && (c == '.' || c == '/') && i > 0, mode == 4 && Chance(g, 30) && i > 0:
			b.WriteString(Escape(g, c))
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

func gen(g *rand.Rand, s site, files map[string][]byte, names []string) want {
	name := Pick(g, names)
	rel := "/" + name
	switch g.Intn(12) {
	case 0:
		rel = Pick(g, []string{"", "/sub", "/sub/deep", "/emptydir", "/static", "/g", "/none", "/none/a.txt", "/a.txt/none", "/a.txt/..", "/A.TXT", "/index.htm", "/index.html1", "x/" + name, name,
			"/emptydir/a.txt", "/index", "/.", "/sub/."})
	case 1, 2, 3:
		up := Pick(g, []string{"..", "../..", "../../..", "../../../../../../..", "..//..", "./..", "../.", "....", "...", "..\\", "..\x00", ".. ", "..;", "sub/..", "sub/../..", "sub/deep/../../..", "emptydir/../.."})
		to := Pick(g, []string{"secret.txt", "root2/a.txt", "rootsecret.txt", "index.html", "a.txt", "sub/b.css", "site/secret.txt", "root/a.txt", "root/index.html", "static/a.txt", "a", ""})
		rel = Pick(g, []string{"/", "//", "/./", "/.//", "/sub/", ""}) + up + Pick(g, []string{"/", "//", "/./"}) + to
		switch g.Intn(6) {
		case 0:
			// far behind the beginning
			rel = "/" + strings.Repeat(Pick(g, []string{"/", "./", "sub/deep/.././../"}), g.Intn(Pick(g, []int{30, 700}))) + up + "/" + to
		case 1:
			// down to an existing directory and up again
			depth := strings.Count(name, "/")
			rel = "/" + name[:strings.LastIndexByte(name, '/')+1] + strings.Repeat("../", depth+1+g.Intn(2)) + to
		}
	case 4:
		rel = Pick(g, []string{"2/a.txt", "secret.txt", "/root2/a.txt", "../secret.txt", ".", "..", "..secret.txt", "%2e%2e/secret.txt", "\\..\\secret.txt", "/\\..\\secret.txt", "/..\\secret.txt"})
	case 5:
		rel = Pick(g, []string{"//", "///", "/./", "/.//./"}) + name
	case 6:
		rel = "/" + strings.ReplaceAll(name, "/", Pick(g, []string{"//", "/./", "/x/../"}))
	case 7:
		rel = "/" + name + Pick(g, []string{"/", "//", "\x00", "\x00.txt", " ", ".", "?", "%", "/."})
	}
	p := s.prefix + rel
	if s.prefix == "/" {
		p = rel
		if !strings.HasPrefix(p, "/") {
			p = "/" + p
		}
	}
	w := want{path: p, method: Pick(g, []string{"GET", "GET", "GET", "HEAD"})}
	w.wire = enc(g, p, g.Intn(5))
	w.request = w.method + " " + w.wire + Pick(g, []string{"", "", "?a=b", "?/../../secret.txt"}) + " HTTP/1.1\r\n\r\n"

	// what the path denotes
	below := strings.TrimSuffix(s.prefix, "/") + "/"
	norm := strings.TrimRight(p, "/")
	w.exact = norm == p
	if norm == "" {
		norm = "/"
	}
	if strings.HasPrefix(norm, below) {
		in := norm[len(below):]
		for _, seg := range strings.Split(in, "/") {
			if seg == "" || seg == "." || strings.Contains(seg, "..") {
				w.exact = false
			}
		}
		clean := path.Clean("./" + in)
		if !strings.HasPrefix(clean, "..") {
			if _, ok := files[clean]; ok {
				w.file = clean
			}
		}
	}
	return w
}

func judge(r *Run, s site, files map[string][]byte, w want, resp Resp, kind string) bool {
	c := map[string]any{"prefix": s.prefix, "root": s.root, "registered": s.how, "request": Q(w.request), "decoded path": Q(w.path)}
	if bytes.Contains(resp.Body, []byte("CANARY")) {
		r.Violate(kind+"/escape", c, "a file outside of the root was served for %q: %s", w.path, Q(resp.Body))
		return false
	}
	served := func() bool {
		if w.method != "HEAD" && !bytes.Equal(resp.Body, files[w.file]) {
			r.Violate(kind+"/content", c, "%q: got %d bytes %s, the file %q has %d", w.path, len(resp.Body), Q(clip(resp.Body)), w.file, len(files[w.file]))
			return false
		}
		ct := resp.Get("Content-Type")
		if len(ct) != 1 {
			r.Violate(kind+"/type", c, "%q: content types %q", w.path, ct)
			return false
		}
		mt := strings.TrimSpace(strings.SplitN(ct[0], ";", 2)[0])
		if ok, known := types[filepath.Ext(w.file)]; known && !contains(ok, mt) {
			r.Violate(kind+"/type", c, "%q has the content type %q, expected %q", w.path, ct[0], ok)
			return false
		}
		return true
	}
	switch {
	case resp.Code == 200 && w.file != "":
		r.Count("served", 1)
		return served()
	case resp.Code == 404 && (w.file == "" || !w.exact):
		r.Count("refused", 1)
		if bytes.Contains(resp.Body, []byte("content of")) {
			r.Violate(kind+"/content", c, "404 with a file for %q", w.path)
			return false
		}
		return true
	case w.file == "":
		r.Violate(fmt.Sprintf("%s/code-%d", kind, resp.Code), c, "%q answered %d %s, nothing below the root corresponds to it", w.path, resp.Code, Q(clip(resp.Body)))
	default:
		r.Violate(fmt.Sprintf("%s/code-%d", kind, resp.Code), c, "%q answered %d, it denotes the file %q", w.path, resp.Code, w.file)
	}
	return false
}

func contains(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

func clip(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

// session serves n requests over one connection.
func session(r *Run, g *rand.Rand, s site, files map[string][]byte, names []string, n int, kind string) bool {
	var ws []want
	var stream strings.Builder
	var ms []string
	for i := 0; i < n; i++ {
		w := gen(g, s, files, names)
		ws, ms = append(ws, w), append(ms, w.method)
		stream.WriteString(w.request)
	}
	conn := &Conn{In: []byte(stream.String())}
	c := map[string]any{"prefix": s.prefix, "root": s.root, "registered": s.how}
	if !Serve(r, kind+"/serve", c, config.Default(), conn, s.rt) {
		return false
	}
	rs, err := ParseAll(conn.Out.Bytes(), ms)
	if err != nil || len(rs) != n {
		c["stream"] = Q(stream.String())
		r.Violate(kind+"/responses", c, "%d responses for %d requests (%v)", len(rs), n, err)
		return false
	}
	for i, w := range ws {
		r.Eval(s.how + s.prefix + s.root + w.request)
		if w.file != "" && w.exact {
			r.Count("exact_files", 1)
		}
		if strings.Contains(w.path, "..") {
			r.Count("traversals", 1)
		}
		if !judge(r, s, files, w, rs[i], kind) {
			return false
		}
	}
	return true
}

func main() {
	Main("C16", "files x encodings x traversal spellings x prefixes x root spellings x registration ways, sequentially and concurrently under the race detector", func(r *Run) {
		g := r.Rng("static")
		files, err := tree(g, r.Scratch)
		if err == nil {
			err = os.Chdir(filepath.Join(r.Scratch, "site"))
		}
		if err != nil {
			r.Inconclusive("%v", err)
			return
		}
		var names []string
		for n := range files {
			names = append(names, n)
		}
		sort.Strings(names)
		all := sites(r.Scratch)
		for i := 0; i < r.N(12, 150); i++ {
			for _, s := range all {
				r.Step("%s under %s (%s)", s.root, s.prefix, s.how)
				if !session(r, g, s, files, names, 20, "sequential") {
					break
				}
			}
		}
		// concurrently through one router
		for i := 0; i < r.N(40, 400); i++ {
			s := Pick(g, all)
			r.Step("concurrently %s under %s (%s)", s.root, s.prefix, s.how)
			var wg sync.WaitGroup
			for k := 0; k < 8; k++ {
				wg.Add(1)
				gg := rand.New(rand.NewSource(g.Int63()))
				go func() {
					defer wg.Done()
					session(r, gg, s, files, names, 25, "concurrent")
				}()
			}
			wg.Wait()
			r.Count("concurrent_rounds", 1)
		}
		r.Floor("served", 10000)
		r.Floor("exact_files", 5000)
		r.Floor("refused", 10000)
		r.Floor("traversals", 5000)
	})
}
