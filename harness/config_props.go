package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	html "html/template"
	"log"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router"
	"github.com/ixtendio/gofre/router/path"
	"pgregory.net/rapid"
)

// ---- C51: settings and their defaults ----

type cfgCase struct {
	Ctor     int    `json:"ctor"`
	CI       bool   `json:"ci,omitempty"`
	Context  string `json:"context,omitempty"`
	OwnLog   bool   `json:"ownLog,omitempty"`
	Res      bool   `json:"res,omitempty"`
	Pattern  string `json:"pattern,omitempty"`
	Dir      string `json:"dir,omitempty"`
	Mapping  string `json:"mapping,omitempty"`
	Template bool   `json:"template,omitempty"` // the application brings its own
	// what exists in the working directory: file names below each of these
	Pages  []string `json:"pages"`
	Assets []string `json:"assets"`
	Sub    []string `json:"sub,omitempty"` // derived muxes: "" a clone, else a prefix
	Errors []Str    `json:"errors"`        // what the handlers fail with, one after the other
	Spoil  bool     `json:"spoil,omitempty"`
}

const (
	ctorConfig = iota
	ctorDefault
	ctorTemplates
	ctorDefaultResources
	ctorRouter
	ctorDefaultRouter
)

var cfgTemplateDirs = []string{"resources/templates", "views", "resources/views"}
var cfgAssetDirs = []string{"resources/assets", "public", "resources/public"}

func runConfig(c *Ctx, cc cfgCase) error {
	root, err := os.MkdirTemp("", "config")
	if err != nil {
		return fmt.Errorf("harness error: %v", err)
	}
	defer os.RemoveAll(root)
	wd, err := os.Getwd()
	if err == nil {
		err = os.Chdir(root)
	}
	if err != nil {
		return fmt.Errorf("harness error: %v", err)
	}
	defer os.Chdir(wd)
	put := func(dir, name string) {
		if e := os.MkdirAll(dir, 0o755); e != nil {
			err = e
		}
		if e := os.WriteFile(filepath.Join(dir, name), []byte(dir+"/"+name), 0o644); e != nil {
			err = e
		}
	}
	for _, d := range cfgTemplateDirs {
		for _, f := range cc.Pages {
			put(d, f)
		}
	}
	for _, d := range cfgAssetDirs {
		for _, f := range cc.Assets {
			put(d, f)
		}
	}
	if err != nil {
		return fmt.Errorf("harness error: %v", err)
	}
	var std bytes.Buffer
	log.SetOutput(&std)
	defer log.SetOutput(os.Stderr)
	var own []error
	conf := &gofre.Config{CaseInsensitivePathMatch: cc.CI, ContextPath: cc.Context}
	if cc.OwnLog {
		conf.ErrLogFunc = func(e error) { own = append(own, e) }
	}
	var given response.ExecutableTemplate
	if cc.Template {
		given = htmlTemplate
	}
	var m *gofre.MuxHandler
	var r *router.Router
	switch cc.Ctor {
	case ctorConfig:
		if cc.Res {
			conf.ResourcesConfig = &gofre.ResourcesConfig{TemplatesPathPattern: cc.Pattern, AssetsDirPath: cc.Dir, AssetsMappingPath: cc.Mapping, Template: given}
		}
		m, err = gofre.NewMuxHandler(conf)
	case ctorDefault:
		m, err = gofre.NewMuxHandlerWithDefaultConfig()
	case ctorTemplates:
		m, err = gofre.NewMuxHandlerWithDefaultConfigAndTemplateSupport()
	case ctorDefaultResources:
		conf.ResourcesConfig = gofre.NewDefaultResourcesConfig()
		m, err = gofre.NewMuxHandler(conf)
	case ctorRouter:
		r = router.NewRouter(cc.CI, conf.ErrLogFunc)
	case ctorDefaultRouter:
		r = router.NewRouterWithDefaultConfig()
	}
	if err != nil {
		return fmt.Errorf("the mux was not created: %v", err)
	}
	// the settings that are in effect
	want := cc
	switch cc.Ctor {
	case ctorDefault, ctorDefaultRouter:
		want = cfgCase{}
	case ctorTemplates:
		want = cfgCase{Res: true}
	case ctorDefaultResources:
		want = cfgCase{CI: cc.CI, Context: cc.Context, OwnLog: cc.OwnLog, Res: true}
	case ctorRouter:
		want = cfgCase{CI: cc.CI, OwnLog: cc.OwnLog}
	}
	unset := 0
	def := func(s *string, d string) {
		if *s == "" {
			*s = d
			unset++
		}
	}
	def(&want.Context, "/")
	if want.Res {
		def(&want.Pattern, "resources/templates/*.html")
		def(&want.Dir, "./resources/assets")
		def(&want.Mapping, "assets")
	}
	c.Class([]string{"NewMuxHandler", "NewMuxHandlerWithDefaultConfig", "NewMuxHandlerWithDefaultConfigAndTemplateSupport", "NewDefaultResourcesConfig", "NewRouter", "NewRouterWithDefaultConfig"}[cc.Ctor])
	c.ClassIf(!want.OwnLog, "errors go to the standard logger")
	if unset > 0 && unset < 4 && want.Res {
		c.NonTrivial() // some settings made, some not
	}
	var muxes []*gofre.MuxHandler
	prefixes := []string{""}
	if m != nil {
		muxes = append(muxes, m)
		for i, p := range cc.Sub {
			if p == "" {
				muxes = append(muxes, muxes[i].Clone())
			} else {
				muxes = append(muxes, muxes[i].RouteUsingPathPrefix(p))
			}
			prefixes = append(prefixes, prefixes[i]+p)
		}
	}
	settings := func(when string) error {
		for i, mx := range muxes {
			got := mx.Config()
			if got.CaseInsensitivePathMatch != want.CI || got.ContextPath != want.Context || got.ErrLogFunc == nil || (got.ResourcesConfig != nil) != want.Res {
				return fmt.Errorf("%s: mux %d has the settings %+v, want %+v", when, i, got, want)
			}
			if rc := got.ResourcesConfig; rc != nil && (rc.TemplatesPathPattern != want.Pattern || rc.AssetsDirPath != want.Dir || rc.AssetsMappingPath != want.Mapping || rc.Template == nil || want.Template && rc.Template != given) {
				return fmt.Errorf("%s: mux %d has the resources %+v, want %+v", when, i, *rc, want)
			}
			if cc.Spoil { // it is a copy
				got.CaseInsensitivePathMatch = !got.CaseInsensitivePathMatch
				got.ContextPath = "/other"
				got.ErrLogFunc = nil
				got.ResourcesConfig = nil
			}
		}
		return nil
	}
	if err := settings("after the creation"); err != nil {
		return err
	}
	var h http.Handler = r
	if m != nil {
		h = m
	}
	get := func(p string) (int, string) {
		rec := httptest.NewRecorder()
		h.ServeHTTP(rec, httptest.NewRequest("GET", p, nil))
		return rec.Code, rec.Body.String()
	}
	// letter case
	ran := 0
	hello := func(context.Context, path.MatchingContext) (response.HttpResponse, error) {
		ran++
		return response.PlainTextHttpResponseOK("hello"), nil
	}
	if m != nil {
		for i, mx := range muxes {
			mx.HandleGet(fmt.Sprintf("/hello%d/World", i), hello)
		}
	} else {
		r.Handle("GET", "/hello0/World", hello)
	}
	for i, p := range prefixes {
		for _, spelling := range []string{"/hello%d/World", "/Hello%d/World", "/hello%d/world"} {
			at := p + fmt.Sprintf(spelling, i)
			ok := want.CI || spelling == "/hello%d/World"
			if st, _ := get(at); ok != (st == 200) {
				return fmt.Errorf("GET %s, case-insensitive %v, gives %d", at, want.CI, st)
			}
		}
	}
	// assets
	at := "/" + want.Mapping + "/"
	if want.Mapping == "" {
		at = "/assets/"
	}
	if want.Context != "/" {
		at = want.Context + at
	}
	for _, f := range cc.Assets {
		if st, body := get(at + f); want.Res && (st != 200 || body != filepath.Clean(want.Dir)+"/"+f) || !want.Res && st != 404 {
			return fmt.Errorf("GET %s gives %d %q (settings %+v)", at+f, st, body, want)
		}
	}
	// templates
	for i, mx := range muxes {
		x := mx.ExecutableTemplate()
		switch {
		case !want.Res:
			if x != nil {
				return fmt.Errorf("mux %d has the template %v without resources", i, x)
			}
		case want.Template:
			if x != given {
				return fmt.Errorf("mux %d has the template %v, not the application's", i, x)
			}
		default:
			std, perr := html.New("").ParseGlob(want.Pattern)
			if perr != nil {
				return fmt.Errorf("harness error: %v", perr)
			}
			for _, f := range cc.Pages {
				var a, b bytes.Buffer
				werr := std.ExecuteTemplate(&a, f, nil)
				if gerr := x.ExecuteTemplate(&b, f, nil); (gerr == nil) != (werr == nil) || werr == nil && a.String() != b.String() {
					return fmt.Errorf("mux %d renders %q as %q, %v; want %q, %v (settings %+v)", i, f, b.String(), gerr, a.String(), werr, want)
				}
			}
		}
	}
	// errors
	for i, text := range cc.Errors {
		e := errors.New(string(text))
		fail := func(context.Context, path.MatchingContext) (response.HttpResponse, error) { return nil, e }
		p := fmt.Sprintf("/fail/%d", i)
		if m != nil {
			k := i % len(muxes)
			muxes[k].HandleGet(p, fail)
			p = prefixes[k] + p
		} else {
			r.Handle("GET", p, fail)
		}
		own = nil
		std.Reset()
		if st, body := get(p); st != 500 || body != "" {
			return fmt.Errorf("a handler that fails with %q gives %d %q", text, st, body)
		}
		if want.OwnLog && (len(own) != 1 || !errors.Is(own[0], e) || std.Len() > 0) {
			return fmt.Errorf("a handler that fails with %q: the error log function got %v, the standard logger %q", text, own, std.String())
		}
		if !want.OwnLog && (strings.Count(std.String(), string(text)) != 1 || len(own) > 0) {
			return fmt.Errorf("a handler that fails with %q: the standard logger got %q", text, std.String())
		}
	}
	std.Reset()
	own = nil
	if st, _ := get("/no/such/path"); st != 404 || std.Len() > 0 || len(own) > 0 {
		return fmt.Errorf("GET of a path without a route gives %d; logged %q, %v", st, std.String(), own)
	}
	return settings("at the end")
}

func genConfig(t *rapid.T) cfgCase {
	cc := cfgCase{
		Ctor:     max(0, rapid.IntRange(-4, ctorDefaultRouter).Draw(t, "ctor")),
		CI:       rapid.Bool().Draw(t, "ci"),
		Context:  rapid.SampledFrom([]string{"", "", "/", "/ctx", "/a/b"}).Draw(t, "context"),
		OwnLog:   rapid.Bool().Draw(t, "ownlog"),
		Res:      rapid.IntRange(0, 3).Draw(t, "res") > 0,
		Dir:      rapid.SampledFrom([]string{"", "", "./public", "public", "resources/public", "public/"}).Draw(t, "dir"),
		Mapping:  rapid.SampledFrom([]string{"", "", "assets", "static", "s/t", "public", "resources/public", "views"}).Draw(t, "mapping"),
		Template: rapid.IntRange(0, 3).Draw(t, "template") == 3,
		Spoil:    rapid.Bool().Draw(t, "spoil"),
	}
	cc.Pattern = rapid.SampledFrom([]string{"", "", "views/*.html", "views/*", "resources/views/*.html", "resources/*/*.html"}).Draw(t, "pattern")
	cc.Pages = append([]string{"index.html"}, rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"a.html", "b.html", "a.txt", "c.htm", "d.HTML", ".html", "x.html.bak", "ü.html"}), 0, 4, rapid.ID[string]).Draw(t, "pages")...)
	cc.Assets = rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"a.txt", "b.css", "c.js", "index.txt", "a.html"}), 1, 3, rapid.ID[string]).Draw(t, "assets")
	for n := several(t, 0, 2, 6, "nsub"); n > 0; n-- {
		cc.Sub = append(cc.Sub, rapid.SampledFrom([]string{"", "/p", "/q/r"}).Draw(t, "sub"))
	}
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "nerr"); i < n; i++ {
		cc.Errors = append(cc.Errors, Str(fmt.Sprintf("error <%d> %s", i, rapid.SampledFrom([]string{"disk full", "100%", "%d%s", "ü", "a\tb", "x=y"}).Draw(t, "err"))))
	}
	return cc
}

func init() {
	register("C51", "A mux or router is created in any of the six ways, with each setting made or not, in a scratch working directory in which the default and the other template and asset directories exist; 0-2 (now and then 6) muxes are derived from it. Its settings, letter-case rule, assets, templates and where errors are logged are compared with the settings made and the documented defaults. Non-trivial: resources, with some settings made and others not.",
		1500, 20000, genConfig, runConfig)
}
