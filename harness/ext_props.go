package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	html "html/template"
	"net/http"
	"net/http/httptest"
	"net/http/pprof"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router"
	"github.com/ixtendio/gofre/router/path"
	"pgregory.net/rapid"
)

// ---- C44: the matching context of a request ----

type nestReq struct {
	RouteReq
	In    int  `json:"in"`              // the request within which it is made, -1 for none
	Write bool `json:"write,omitempty"` // made while the response is written, not by the handler
	Out   int  `json:"out,omitempty"`   // 0 answer, 1 error, 2 panic, 3 the writing fails, 4 the writing panics
}

type nestCase struct {
	RouteCase
	Nested []nestReq `json:"nested"`
}

type ownResponse struct {
	response.HttpResponse
	write func(mc path.MatchingContext) error
}

func (o ownResponse) Write(w http.ResponseWriter, mc path.MatchingContext) error {
	if err := o.write(mc); err != nil {
		return err
	}
	return o.HttpResponse.Write(w, mc)
}

type nestKey struct{}

func runNested(c *Ctx, nc nestCase) error {
	rc := nc.RouteCase.expand()
	tb, err := buildTable(rc, identity(len(rc.Pats)))
	if err != nil {
		return err
	}
	run := rc.Huge
	reqs := append([]nestReq(nil), nc.Nested...)
	alone := make([]routeResult, len(reqs))
	for i := range reqs {
		reqs[i].Path = Str(strings.ReplaceAll(string(reqs[i].Path), hugeMark, strings.Repeat("b", run)))
		alone[i] = tb.serve(reqs[i].Method, string(reqs[i].Path))
	}
	r := router.NewRouter(rc.CI, func(error) {})
	type kept struct {
		who  int
		mc   path.MatchingContext
		when string
	}
	var clones []kept
	var wrong error
	served := 0
	check := func(i int, mc path.MatchingContext, when string) {
		if wrong != nil || len(alone[i].Hits) != 1 {
			return
		}
		for name, want := range alone[i].Hits[0].Vars {
			if got := mc.PathVar(name); got != want {
				wrong = fmt.Errorf("request %d (%s %q) %s: the variable %q is %q, alone it is %q", i, reqs[i].Method, clip(string(reqs[i].Path), 200), when, name, clip(got, 200), clip(want, 200))
			}
		}
	}
	var serve func(i int)
	children := func(i int, write bool) {
		for k := range reqs {
			if reqs[k].In == i && reqs[k].Write == write {
				serve(k)
			}
		}
	}
	serve = func(i int) {
		defer func() {
			if x := recover(); x != nil && x != any("planned") {
				panic(x)
			}
		}()
		served++
		req := newReq(reqs[i].Method, string(reqs[i].Path))
		r.ServeHTTP(httptest.NewRecorder(), req.WithContext(context.WithValue(req.Context(), nestKey{}, i)))
	}
	for p := range rc.Pats {
		r.Handle(rc.Pats[p].Method, rc.Pats[p].String(), func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			i := ctx.Value(nestKey{}).(int)
			if len(alone[i].Hits) != 1 || alone[i].Hits[0].Index != p {
				wrong = fmt.Errorf("request %d is handled by %q, alone by %v", i, rc.Pats[p], alone[i].Hits)
				return nil, errSource
			}
			check(i, mc, "in the handler")
			clones = append(clones, kept{i, mc.Clone(), "cloned by the handler"})
			children(i, false)
			check(i, mc, "in the handler, after it served other requests")
			clones = append(clones, kept{i, mc.Clone(), "cloned by the handler after it served other requests"})
			switch reqs[i].Out {
			case 1:
				return nil, errSource
			case 2:
				panic("planned")
			}
			return ownResponse{response.PlainTextHttpResponse(299, "ok"), func(mc path.MatchingContext) error {
				check(i, mc, "in the response")
				children(i, true)
				check(i, mc, "in the response, after it served other requests")
				clones = append(clones, kept{i, mc.Clone(), "cloned by the response"})
				switch reqs[i].Out {
				case 3:
					return errSource
				case 4:
					panic("planned")
				}
				return nil
			}}, nil
		})
	}
	for i := range reqs {
		if reqs[i].In < 0 {
			serve(i)
		}
	}
	vars := 0
	for _, k := range clones {
		check(k.who, k.mc, k.when+", when all requests are over")
		if k.mc.R == nil || k.mc.R.URL.Path != string(reqs[k.who].Path) {
			return fmt.Errorf("request %d: the clone has the request %v", k.who, k.mc.R)
		}
		again := k.mc.Clone()
		check(k.who, again, "cloned again")
		for _, v := range alone[k.who].Hits[0].Vars {
			if v != "" {
				vars++
			}
		}
	}
	if wrong != nil {
		return wrong
	}
	if vars > 0 && served > 1 {
		c.NonTrivial()
	}
	for _, q := range reqs {
		c.ClassIf(q.In >= 0, "nested request")
		c.ClassIf(q.Out == 2 || q.Out == 4, "panic")
	}
	return nil
}

func genNested(t *rapid.T) nestCase {
	var nc nestCase
	nc.RouteCase = genRouteCase(5, 6, []string{"GET"})(t)
	for n := several(t, 1, 8, 40, "nnested"); n > 0; n-- {
		q := nestReq{RouteReq: rapid.SampledFrom(nc.Reqs).Draw(t, "of"), In: -1}
		if len(nc.Nested) > 0 {
			q.In = rapid.IntRange(-1, len(nc.Nested)-1).Draw(t, "in")
			q.Write = q.In >= 0 && rapid.Bool().Draw(t, "write")
		}
		if k := rapid.IntRange(0, 9).Draw(t, "out"); k < 5 {
			q.Out = k
		}
		nc.Nested = append(nc.Nested, q)
	}
	nc.Reqs = nil
	return nc
}

// ---- C45: templates ----

type tplFile struct {
	Name  string   `json:"name"`
	Parts []string `json:"parts"`
}

type tplCase struct {
	Files    []tplFile         `json:"files"`
	Pattern  string            `json:"pattern"` // below the directory; "" is the default one
	Given    int               `json:"given"`   // 0 none, 1 a template of the application, 2 NilTemplate, 3 no resources at all
	Context  string            `json:"context"`
	Prefixes []string          `json:"prefixes"`
	Data     map[string]string `json:"data"`
	Names    []string          `json:"names"`
}

const defaultTemplates = "resources/templates"

func runTemplates(c *Ctx, tc tplCase) error {
	root, err := os.MkdirTemp("", "templates")
	if err != nil {
		return fmt.Errorf("harness error: %v", err)
	}
	defer os.RemoveAll(root)
	wd, err := os.Getwd()
	if err == nil {
		err = os.Chdir(root)
	}
	if err != nil {
		return fmt.Errorf("harness error: %v", err)
	}
	defer os.Chdir(wd)
	dir := defaultTemplates
	pattern := ""
	glob := dir + "/*.html"
	if tc.Pattern != "" {
		dir = "views"
		pattern = dir + "/" + tc.Pattern
		glob = pattern
	}
	for _, f := range tc.Files {
		if err := os.MkdirAll(dir, 0o755); err == nil {
			err = os.WriteFile(filepath.Join(dir, f.Name), []byte(strings.Join(f.Parts, "")), 0o644)
		}
		if err != nil {
			return fmt.Errorf("harness error: %v", err)
		}
	}
	_ = os.MkdirAll("resources/assets", 0o755)
	_ = os.WriteFile("resources/assets/a.txt", []byte("an asset"), 0o644)
	var logged []error
	conf := &gofre.Config{ContextPath: tc.Context, ErrLogFunc: func(e error) { logged = append(logged, e) }}
	var given response.ExecutableTemplate
	switch tc.Given {
	case 1:
		given = htmlTemplate
	case 2:
		given = response.NilTemplate{}
	}
	if tc.Given != 3 {
		conf.ResourcesConfig = &gofre.ResourcesConfig{TemplatesPathPattern: pattern, Template: given}
	}
	want, wantErr := html.New("").Funcs(html.FuncMap{"safe": func(s string) html.HTML { return html.HTML(s) }}).ParseGlob(glob)
	m, err := gofre.NewMuxHandler(conf)
	if tc.Given == 0 && wantErr != nil {
		c.Class("templates that can not be loaded")
		if err == nil || m != nil {
			return fmt.Errorf("the templates can not be loaded (%v) but the mux was created, error %v", wantErr, err)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("the mux was not created: %v", err)
	}
	switch tc.Given {
	case 3:
		if x := m.ExecutableTemplate(); x != nil {
			return fmt.Errorf("there is a template %v without resources", x)
		}
	case 1, 2:
		if x := m.ExecutableTemplate(); x != given {
			return fmt.Errorf("the template is %v, not the application's", x)
		}
	}
	// the default assets
	assets := "/assets/a.txt"
	if tc.Context != "" && tc.Context != "/" {
		assets = tc.Context + assets
	}
	rec := httptest.NewRecorder()
	m.ServeHTTP(rec, httptest.NewRequest("GET", assets, nil))
	if (tc.Given != 3) != (rec.Code == 200 && rec.Body.String() == "an asset") {
		return fmt.Errorf("GET %s with resources %v: %d %q", assets, tc.Given != 3, rec.Code, rec.Body)
	}
	if tc.Given == 3 {
		return nil
	}
	muxes := []*gofre.MuxHandler{m}
	for i, p := range tc.Prefixes {
		parent := muxes[i%len(muxes)]
		if p == "" {
			muxes = append(muxes, parent.Clone())
		} else {
			muxes = append(muxes, parent.RouteUsingPathPrefix(p))
		}
	}
	for i, mx := range muxes {
		for k, name := range tc.Names {
			var out bytes.Buffer
			var werr error
			switch tc.Given {
			case 0:
				werr = want.ExecuteTemplate(&out, name, tc.Data)
			case 1:
				werr = htmlTemplate.ExecuteTemplate(&out, name, tc.Data)
			}
			route := fmt.Sprintf("/page/%d/%d", i, k)
			m.HandleGet(route, func(context.Context, path.MatchingContext) (response.HttpResponse, error) {
				return response.TemplateHttpResponseOK(mx.ExecutableTemplate(), name, tc.Data), nil
			})
			logged = nil
			rec := httptest.NewRecorder()
			m.ServeHTTP(rec, testReq("GET", route, nil))
			if werr != nil {
				c.Class("rendering fails")
				if len(logged) != 1 {
					return fmt.Errorf("mux %d, template %q: %v, but logged is %v", i, name, werr, logged)
				}
				continue
			}
			if len(logged) > 0 || rec.Code != 200 || rec.Body.String() != out.String() {
				return fmt.Errorf("mux %d, template %q: %d %q, logged %v, want %q", i, name, rec.Code, rec.Body, logged, out.String())
			}
			if tc.Given == 0 {
				c.Class("rendered")
				if strings.ContainsAny(out.String(), "<&") {
					c.NonTrivial()
				}
			}
		}
	}
	return nil
}

func genTemplates(t *rapid.T) tplCase {
	var tc tplCase
	names := []string{"index.html", "a.html", "b.html", "part.tmpl", "Ü x.html", "c.htm"}
	parts := []string{"text ", "<p>{{.a}}</p>", "{{.b}}", "{{safe .b}}", "{{safe .a}}", "<a href=\"/x?y={{.a}}\" title='{{.b}}'>l</a>", "{{template \"a.html\" .}}", "{{template \"part\" .}}", "{{if .a}}yes{{else}}no{{end}}",
		"<script>var x = {{.b}};</script>", "{{define \"part\"}}[{{.a}}]{{end}}", "<!-- comment -->", "{{safe \"<!-- kept -->\"}}", "<pre>{{safe \" \\n<i>x</i>\\t \"}}</pre>", "{{safe \"\"}}", "{{safe \"<P Q>&amp;&\"}}", "{{printf \"%s!\" .a}}", "\n", "日本", "{{.a | safe}}", "{{len .b}}", "{{html .a}}"}
	bad := []string{"{{", "{{nofunc .a}}", "{{end}}", "{{if}}", "{{template \"nosuch\" .}}", "{{index .a 99}}", "<a href={{"}
	few := names
	if rapid.IntRange(0, 3).Draw(t, "few") > 0 {
		few = names[:3]
	}
	for n := rapid.IntRange(0, 9).Draw(t, "nfiles"); n > 0; n -= 2 {
		f := tplFile{Name: rapid.SampledFrom(few).Draw(t, "name"), Parts: rapid.SliceOfN(rapid.SampledFrom(parts), 0, 5).Draw(t, "parts")}
		if rapid.IntRange(0, 21).Draw(t, "bad") == 21 {
			f.Parts = append(f.Parts, rapid.SampledFrom(bad).Draw(t, "badpart"))
		}
		for i, p := range f.Parts {
			if strings.Contains(p, "template \"part\"") && rapid.IntRange(0, 3).Draw(t, "defined") > 0 {
				f.Parts[i] = "{{define \"part\"}}({{.b}}){{end}}" + p
			}
			if strings.Contains(p, "\"a.html\"") && f.Name == "a.html" {
				f.Parts[i] = "" // it would include itself
			}
		}
		tc.Files = append(tc.Files, f)
	}
	tc.Pattern = rapid.SampledFrom([]string{"", "", "", "*.html", "*.html", "*", "*", "*.htm*", "index.html", "?.html", "[ab].html", "[", "none*"}).Draw(t, "pattern")
	if rapid.IntRange(0, 5).Draw(t, "hasgiven") == 5 {
		tc.Given = rapid.IntRange(0, 3).Draw(t, "given")
	}
	tc.Context = rapid.SampledFrom([]string{"", "/", "/app"}).Draw(t, "context")
	tc.Prefixes = rapid.SliceOfN(rapid.SampledFrom([]string{"", "/x", "y"}), 0, 2).Draw(t, "prefixes")
	values := []string{"plain", "<b>bold</b> & \"q\"", "a b", "<!-- c -->", "'\"><script>alert(1)</script>", "", "日本 ü", "javascript:x"}
	tc.Data = map[string]string{"a": rapid.SampledFrom(values).Draw(t, "a"), "b": rapid.SampledFrom(values).Draw(t, "b")}
	use := []string{"nosuch.html", "part", "t", "index.html"}
	for _, f := range tc.Files {
		use = append(use, f.Name, f.Name)
	}
	tc.Names = rapid.SliceOfN(rapid.SampledFrom(use), 1, 3).Draw(t, "names")
	return tc
}

// ---- C46: debug endpoints ----

type debugReq struct {
	Method string `json:"m"`
	Path   string `json:"p"` // below the prefix
	Query  string `json:"q,omitempty"`
}

type debugCase struct {
	CI       bool       `json:"ci"`
	Prefix   string     `json:"prefix"`
	Clone    bool       `json:"clone,omitempty"`
	Common   int        `json:"common"` // common middlewares before and after
	Refuse   bool       `json:"refuse,omitempty"`
	CatchAll bool       `json:"catchAll,omitempty"`
	Reqs     []debugReq `json:"reqs"`
}

var debugProfiles = []string{"allocs", "block", "goroutine", "heap", "mutex", "threadcreate"}

func debugStandard(name string) http.Handler {
	switch name {
	case "":
		return http.HandlerFunc(pprof.Index)
	case "cmdline":
		return http.HandlerFunc(pprof.Cmdline)
	case "symbol":
		return http.HandlerFunc(pprof.Symbol)
	case "profile":
		return http.HandlerFunc(pprof.Profile)
	case "trace":
		return http.HandlerFunc(pprof.Trace)
	}
	for _, p := range debugProfiles {
		if p == name {
			return pprof.Handler(name)
		}
	}
	return nil
}

func runDebug(c *Ctx, dc debugCase) error {
	m, err := gofre.NewMuxHandler(&gofre.Config{CaseInsensitivePathMatch: dc.CI, ErrLogFunc: func(error) {}})
	if err != nil {
		return err
	}
	top := m
	if dc.CatchAll {
		top.HandleGet("/**", func(context.Context, path.MatchingContext) (response.HttpResponse, error) {
			return response.PlainTextHttpResponse(299, "the application"), nil
		})
	}
	m = m.RouteUsingPathPrefix(dc.Prefix)
	if dc.Clone {
		m = m.Clone()
	}
	var ran []int
	errRefused := errors.New("refused")
	mw := func(id int) middleware.Middleware {
		return func(h handler.Handler) handler.Handler {
			return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				ran = append(ran, id)
				if dc.Refuse && id == 0 {
					return nil, errRefused
				}
				return h(ctx, mc)
			}
		}
	}
	want := []int{}
	for i := 0; i < dc.Common; i++ {
		m.CommonMiddlewares(mw(i))
		want = append(want, i)
	}
	m.EnableDebugEndpoints()
	if dc.Common > 0 {
		m.CommonMiddlewares(mw(100))
	}
	refused := dc.Refuse && dc.Common > 0
	if refused {
		want = want[:1]
	}
	base := strings.TrimSuffix(dc.Prefix, "/")
	for i, q := range dc.Reqs {
		ctx, cancel := context.WithCancel(context.Background())
		cancel() // so that a profile over time ends at once
		serve := func(h http.Handler, target string) *httptest.ResponseRecorder {
			rec := httptest.NewRecorder()
			r := newReq(q.Method, target)
			r.URL.RawQuery = q.Query
			h.ServeHTTP(rec, r.WithContext(ctx))
			return rec
		}
		ran = []int{}
		got := serve(top, base+q.Path)
		segs, _ := normalise(q.Path)
		name := strings.Join(segs, "/")
		if dc.CI {
			name = strings.ToLower(name)
		}
		what := fmt.Sprintf("request %d: %s %s?%s", i, q.Method, base+q.Path, q.Query)
		var std http.Handler
		profile, isProfile := strings.CutPrefix(name, "debug/pprof")
		profile = strings.TrimPrefix(profile, "/")
		if isProfile {
			std = debugStandard(profile)
		}
		if q.Method != "GET" || std == nil && name != "debug/vars" {
			c.Class("not a debug endpoint")
			if len(ran) > 0 || dc.CatchAll && q.Method == "GET" && got.Code != 299 || !(dc.CatchAll && q.Method == "GET") && got.Code != 404 {
				return fmt.Errorf("%s: not a debug endpoint but answered with %d %q", what, got.Code, clip(got.Body.String(), 200))
			}
			continue
		}
		if !reflect.DeepEqual(ran, want) {
			return fmt.Errorf("%s: the common middlewares %v ran, want %v", what, ran, want)
		}
		if refused {
			c.Class("refused by a middleware")
			if got.Code != 500 || got.Body.Len() > 0 {
				return fmt.Errorf("%s: a middleware refused it but it was answered with %d %q", what, got.Code, clip(got.Body.String(), 200))
			}
			continue
		}
		if name == "debug/vars" {
			v := map[string]any{}
			if err := json.Unmarshal(got.Body.Bytes(), &v); err != nil || got.Code != 200 || v["cmdline"] == nil || v["memstats"] == nil {
				return fmt.Errorf("%s: %d %q", what, got.Code, clip(got.Body.String(), 200))
			}
			c.Class("vars")
			continue
		}
		ref := serve(std, "/debug/pprof/"+profile)
		for _, h := range []string{"Content-Type", "Content-Disposition"} {
			if got.Header().Get(h) != ref.Header().Get(h) {
				return fmt.Errorf("%s: the header %s is %q, want %q", what, h, got.Header().Get(h), ref.Header().Get(h))
			}
		}
		if got.Code != ref.Code || first(got.Body.String()) != first(ref.Body.String()) {
			return fmt.Errorf("%s: %d %q, the standard handler answers with %d %q", what, got.Code, clip(got.Body.String(), 200), ref.Code, clip(ref.Body.String(), 200))
		}
		c.Class("profile " + profile)
		if dc.Prefix != "" || dc.Common > 0 || dc.CI {
			c.NonTrivial()
		}
	}
	return nil
}

// first is the part of an answer that does not change from one moment to the next.
func first(s string) string {
	s, _, _ = strings.Cut(s, "\n")
	s, _, _ = strings.Cut(s, ":")
	if len(s) > 4 && !strings.Contains(s, "profile") {
		s = s[:4]
	}
	return s
}

func genDebug(t *rapid.T) debugCase {
	dc := debugCase{CI: rapid.Bool().Draw(t, "ci"), Prefix: rapid.SampledFrom([]string{"", "/app", "/a/b", "/x/", "/debug"}).Draw(t, "prefix"), Clone: rapid.Bool().Draw(t, "clone"),
		Common: rapid.IntRange(0, 2).Draw(t, "common"), Refuse: rapid.IntRange(0, 3).Draw(t, "refuse") == 3, CatchAll: rapid.Bool().Draw(t, "catchall")}
	for n := several(t, 1, 4, 20, "nreq"); n > 0; n-- {
		q := debugReq{Method: "GET"}
		name := rapid.SampledFrom(append([]string{"", "cmdline", "symbol", "none", "heap/x"}, append(debugProfiles, debugProfiles...)...)).Draw(t, "name")
		if rapid.IntRange(0, 99).Draw(t, "slow") == 99 {
			name = rapid.SampledFrom([]string{"profile", "trace"}).Draw(t, "slowname")
		}
		q.Path = "/debug/pprof/" + name
		switch rapid.IntRange(0, 11).Draw(t, "spelling") {
		case 0:
			q.Path = "/debug//pprof/x/../" + name
		case 1:
			q.Path = strings.ToUpper(q.Path)
		case 2:
			q.Path = "/debug/vars"
		case 3:
			q.Method = rapid.SampledFrom([]string{"POST", "HEAD", "DELETE"}).Draw(t, "method")
		}
		q.Query = rapid.SampledFrom([]string{"", "debug=1", "debug=1", "debug=2", "0x1", "gc=0"}).Draw(t, "query")
		dc.Reqs = append(dc.Reqs, q)
	}
	return dc
}

func init() {
	register("C44", "Tables as for C04 and 1-8 requests, some of them made by the handler or by the response of another one, that answer, fail or panic in the handler or while the response is written; the variables are read before and after the other requests, in the response, and in clones when all is over. Non-trivial: a request with variables and another one.",
		10000, 150000, genNested, runNested)
	register("C45", "0-4 template files with 0-5 parts each (text, values in element, attribute, URL and script context, safe, define, template, conditions; sometimes malformed), nine file patterns or the default one, an own template, NilTemplate or no resources, and 1-3 templates rendered over 1-3 muxes. Non-trivial: a template of the files is rendered and gives markup.",
		1500, 20000, genTemplates, runTemplates)
	register("C46", "Debug endpoints on a mux with a path prefix, cloned or not, letter case ignored or not, with 0-2 common middlewares (one may refuse) and a catch-all handler; 1-4 requests for every endpoint, close names and other methods, in several spellings and with the query parameters of the standard handlers. Non-trivial: a profile is requested where prefix, middlewares or letter case play a part.",
		400, 5000, genDebug, runDebug)
}
