package main

import (
	"bufio"
	"context"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"strings"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/response"
	gpath "github.com/ixtendio/gofre/router/path"
	"pgregory.net/rapid"
)

// ---- C37: static assets ----

type assetFile struct {
	Path string `json:"p"`
	Size int    `json:"s"`
}

type assetReq struct {
	Rest   string `json:"rest"`             // of the escaped path
	Prefix string `json:"prefix,omitempty"` // instead of the assets path
	Spell  int    `json:"spell,omitempty"`  // how the assets path is written: one of the ways of spell
	Range  string `json:"range,omitempty"`
	Since  int    `json:"since,omitempty"` // If-Modified-Since, 1 before or 2 after the file was written
}

type assetCase struct {
	Context  string      `json:"context"`
	Mapping  string      `json:"mapping"`
	Slash    bool        `json:"slash,omitempty"`    // the directory is given with a trailing slash
	CI       bool        `json:"ci,omitempty"`       // paths are matched case-insensitively
	CatchAll bool        `json:"catchAll,omitempty"` // the application has a handler for every path
	Files    []assetFile `json:"files"`
	Reqs     []assetReq  `json:"reqs"`
}

func (f assetFile) content() string {
	return (f.Path + "|" + strings.Repeat("content of the asset ", f.Size/20+1))[:max(f.Size, len(f.Path)+1)]
}

// spell writes the prefix /a/b/ in another way that the router takes for the same.
func spell(prefix string, way int, ci bool) string {
	segs := strings.Split(strings.Trim(prefix, "/"), "/")
	switch way {
	case 1:
		return "/" + strings.Join(segs, "//") + "//"
	case 2:
		return "/x/../" + strings.Join(segs, "/") + "/"
	case 3:
		return "/" + strings.Join(segs, "/") + "/y/../"
	case 4:
		last := segs[len(segs)-1]
		return strings.TrimSuffix(prefix, last+"/") + fmt.Sprintf("%%%02X", last[0]) + last[1:] + "/"
	case 5:
		return "/../" + strings.Join(segs, "/z/../") + "/"
	case 6:
		if ci {
			return strings.ToUpper(prefix)
		}
	case 7:
		if ci {
			return "//" + strings.ToUpper(prefix[1:2]) + prefix[2:]
		}
	case 8:
		if ci && strings.Contains(prefix, "s") {
			return strings.Replace(prefix, "s", "%C5%BF", 1) // the long s
		}
	}
	return prefix
}

const outside = "OUTSIDE-SECRET"

func runAssets(c *Ctx, ac assetCase) error {
	root, err := os.MkdirTemp("", "assets")
	if err != nil {
		return fmt.Errorf("harness error: %v", err)
	}
	defer os.RemoveAll(root)
	dir := filepath.Join(root, "public")
	put := func(name, content string) {
		if e := os.MkdirAll(filepath.Dir(name), 0o755); e != nil && err == nil {
			err = e
		}
		if e := os.WriteFile(name, []byte(content), 0o644); e != nil && err == nil {
			err = e
		}
	}
	for _, n := range []string{"secret.txt", "public-too/secret.txt", "public.txt", "secret/index.html"} {
		put(filepath.Join(root, n), outside)
	}
	if e := os.MkdirAll(dir, 0o755); e != nil {
		return fmt.Errorf("harness error: %v", e)
	}
	files := map[string]string{}
	dirs := map[string]bool{"/": true}
	for _, f := range ac.Files {
		if err := os.MkdirAll(filepath.Dir(filepath.Join(dir, f.Path)), 0o755); err != nil {
			continue // a file has the name of the directory
		}
		if os.WriteFile(filepath.Join(dir, f.Path), []byte(f.content()), 0o644) != nil {
			continue
		}
		files["/"+f.Path] = f.content()
		for d := path.Dir("/" + f.Path); d != "/"; d = path.Dir(d) {
			dirs[d] = true
		}
	}
	if err != nil {
		return fmt.Errorf("harness error: %v", err)
	}
	given := dir
	if ac.Slash {
		given += "/"
	}
	m, err := gofre.NewMuxHandler(&gofre.Config{ContextPath: ac.Context, CaseInsensitivePathMatch: ac.CI, ErrLogFunc: func(error) {},
		ResourcesConfig: &gofre.ResourcesConfig{AssetsDirPath: given, AssetsMappingPath: ac.Mapping, Template: htmlTemplate}})
	if err != nil {
		return fmt.Errorf("the mux could not be created: %v", err)
	}
	if ac.CatchAll {
		m.HandleGet("/**", func(context.Context, gpath.MatchingContext) (response.HttpResponse, error) {
			return response.PlainTextHttpResponseOK("the application"), nil
		})
	}
	prefix := "/assets/"
	if ac.Mapping != "" {
		prefix = "/" + ac.Mapping + "/"
	}
	if ac.Context != "/" {
		prefix = ac.Context + prefix
	}
	for i, q := range ac.Reqs {
		rest := strings.ReplaceAll(q.Rest, "$ROOT", root)
		target := prefix + rest
		if q.Prefix != "" {
			target = q.Prefix + q.Rest
		} else if q.Spell > 0 {
			target = spell(prefix, q.Spell, ac.CI) + rest
		}
		r, err := http.ReadRequest(bufio.NewReader(strings.NewReader("GET " + target + " HTTP/1.1\r\nHost: example.test\r\n\r\n")))
		if err != nil {
			continue // a server would not accept it
		}
		named := r.URL.Path // what the path is in the plain spelling
		if target != prefix+rest && q.Prefix == "" {
			u, err := url.ParseRequestURI(prefix + rest)
			if err != nil {
				continue
			}
			named = u.Path
			c.Class("assets path in another spelling")
		}
		if q.Range != "" {
			r.Header.Set("Range", q.Range)
		}
		if q.Since > 0 {
			r.Header.Set("If-Modified-Since", []string{"Mon, 02 Jan 2006 15:04:05 GMT", "Fri, 02 Jan 2099 15:04:05 GMT"}[q.Since-1])
		}
		rec := httptest.NewRecorder()
		m.ServeHTTP(rec, r)
		got := recorded(rec, nil)
		if strings.Contains(got.Body, outside) {
			return fmt.Errorf("request %d: GET %s sends a file from outside the asset directory", i, target)
		}
		if got.Status == 200 && got.Body == "the application" && ac.CatchAll && (q.Prefix != "" || !strings.HasPrefix(named, prefix) || path.Clean(named) != named) {
			continue
		}
		if q.Prefix != "" {
			if len(path.Clean(r.URL.Path)) < len(prefix) || !strings.HasPrefix(path.Clean(r.URL.Path), prefix) {
				if got.Status == 200 {
					return fmt.Errorf("request %d: GET %s is not below %s but gives %q", i, target, prefix, clip(got.Body, 200))
				}
			}
			continue
		}
		rest = strings.TrimPrefix(named, prefix)
		clean := path.Clean("/" + rest)
		if full := path.Clean(named); full != named && strings.HasPrefix(full, prefix) {
			clean = "/" + full[len(prefix):] // dot segments may leave the assets path and come back
		}
		// the file server redirects from index.html to the directory
		exact := "/"+rest == clean && path.Clean(named) == named && rest != "" && !strings.Contains(rest, "\x00") && path.Base(rest) != "index.html"
		want, isFile := files[clean]
		isDir := dirs[clean]
		switch {
		case exact && isFile:
			c.Class("file")
			if clean != "/"+q.Rest || strings.Contains(rest, "/") {
				c.NonTrivial()
			}
			if q.Range != "" || q.Since > 0 { // answered as the standard file server does
				c.Class("part of a file or conditional")
				plain, _ := http.NewRequest("GET", "http://example.test/", nil)
				plain.URL.Path, plain.Header = "/"+rest, r.Header
				rec := httptest.NewRecorder()
				http.FileServer(http.Dir(dir)).ServeHTTP(rec, plain)
				if std := recorded(rec, nil); got.Status != std.Status || got.Body != std.Body || got.Header.Get("Content-Range") != std.Header.Get("Content-Range") {
					return fmt.Errorf("request %d: GET %s (Range %q, If-Modified-Since %q) gives %d %s, a file server %d %s", i, target, q.Range, r.Header.Get("If-Modified-Since"),
						got.Status, clip(fmt.Sprintf("%q", got.Body), 200), std.Status, clip(fmt.Sprintf("%q", std.Body), 200))
				}
				break
			}
			if got.Status != 200 || got.Body != want {
				return fmt.Errorf("request %d: GET %s gives %d %s, want the file %s (%d bytes)", i, target, got.Status, clip(fmt.Sprintf("%q", got.Body), 200), clean, len(want))
			}
		case exact && !isFile && !isDir:
			c.Class("no such file")
			if got.Status != 404 {
				return fmt.Errorf("request %d: GET %s gives %d %s, want 404", i, target, got.Status, clip(fmt.Sprintf("%q", got.Body), 200))
			}
		default: // a directory or a path that is not clean: nothing but that file or directory
			c.NonTrivial()
			c.Class("directory or odd path")
			if got.Status != 200 {
				break
			}
			index, hasIndex := files[path.Join(clean, "index.html")]
			switch {
			case isFile && got.Body == want, isDir && hasIndex && got.Body == index:
			case isDir && !hasIndex:
				for d := range dirs { // a listing
					if path.Dir(d) == clean && d != "/" && !strings.Contains(got.Body, path.Base(d)[:1]) {
						return fmt.Errorf("request %d: GET %s gives %q, which is not the directory %s", i, target, clip(got.Body, 300), clean)
					}
				}
			default:
				return fmt.Errorf("request %d: GET %s gives %q", i, target, clip(got.Body, 300))
			}
		}
	}
	return nil
}

var assetNames = []string{"a.txt", "b.html", "index.html", "sub/a.txt", "sub/deep/c.css", "with space.js", "ü.txt", "a%2Fb.txt", "a+b", "c#d.txt", "e?f", "*.txt", "{x}.txt", "sub/index.html", ".hidden", "..data", "...", "a..b/c", "secret.txt/in", "A.TXT", "sub.d/x;y=z", "~", "a\\b.txt", "1/2/3/4/5/6/7/8/9/f"}

func escapePath(p string) string {
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		if ch := p[i]; ch > ' ' && ch < 0x7f && ch != '%' && ch != '?' && ch != '#' {
			b.WriteByte(ch)
		} else {
			fmt.Fprintf(&b, "%%%02X", ch)
		}
	}
	return b.String()
}

func genAssets(t *rapid.T) assetCase {
	ac := assetCase{Context: rapid.SampledFrom([]string{"", "/", "/ctx", "/a/b"}).Draw(t, "context"), Mapping: rapid.SampledFrom([]string{"", "assets", "static", "s/t", "Static", "my-s.1/~X"}).Draw(t, "mapping"),
		CI:    rapid.IntRange(0, 2).Draw(t, "ci") == 2,
		Slash: rapid.IntRange(0, 3).Draw(t, "slash") == 3, CatchAll: rapid.IntRange(0, 2).Draw(t, "catchall") == 2}
	for n := several(t, 0, 5, 40, "nfiles"); n > 0; n-- {
		ac.Files = append(ac.Files, assetFile{rapid.SampledFrom(assetNames).Draw(t, "file"), rapid.SampledFrom([]int{0, 10, 300, 5000, 100000}).Draw(t, "size")})
	}
	odd := []string{"..", "..", "%2e%2e", ".%2E", ".", "", "sub", "a.txt", "secret.txt", "secret", "public-too", "public.txt", "public", "%2e", "..%2f..%2fsecret.txt", "..%5csecret.txt", "%2Fsecret.txt", "a.txt%00", "%252e%252e", "..;", "index.html", "b.html%20", "C:", "assets", "ctx"}
	for n := several(t, 1, 6, 30, "nreqs"); n > 0; n-- {
		var q assetReq
		switch rapid.IntRange(0, 7).Draw(t, "kind") {
		case 0, 1, 2:
			name := rapid.SampledFrom(assetNames).Draw(t, "name")
			if len(ac.Files) > 0 && rapid.Bool().Draw(t, "present") {
				name = ac.Files[rapid.IntRange(0, len(ac.Files)-1).Draw(t, "which")].Path
			}
			q.Rest = escapePath(name)
			q.Range = rapid.SampledFrom([]string{"", "", "", "bytes=0-4", "bytes=5-", "bytes=-3", "bytes=200000-", "bytes=x"}).Draw(t, "range")
			q.Since = max(0, rapid.IntRange(-3, 2).Draw(t, "since"))
			if rapid.IntRange(0, 3).Draw(t, "allesc") == 3 {
				q.Rest = ""
				for i := 0; i < len(name); i++ {
					q.Rest += fmt.Sprintf("%%%02x", name[i])
				}
			}
			switch rapid.IntRange(0, 9).Draw(t, "suffix") {
			case 0:
				q.Rest += "?q=../secret.txt"
			case 1:
				q.Rest += "/"
			case 2:
				q.Rest += "/.."
			case 3:
				q.Rest = "/" + q.Rest
			case 4:
				q.Rest += "x"
			}
		case 3:
			q.Rest = rapid.SampledFrom([]string{"$ROOT/secret.txt", "/$ROOT/secret.txt", "..$ROOT/secret.txt", "../public-too/secret.txt", "../public.txt", ".txt", "-too/secret.txt", "../secret/", "../secret", "../", "..", strings.Repeat("../", 9) + "etc/hostname"}).Draw(t, "escape")
		case 4:
			q.Prefix = rapid.SampledFrom([]string{"/", "/ctx/", "/assetsx/", "/x/assets/", "//assets/", "/a/b/", "/a/"}).Draw(t, "prefix")
			q.Rest = rapid.SampledFrom([]string{"a.txt", "secret.txt", "../a.txt", "assets/../assets/a.txt"}).Draw(t, "rest")
		default:
			var segs []string
			for k := several(t, 1, 5, 30, "nsegs"); k > 0; k-- {
				segs = append(segs, rapid.SampledFrom(odd).Draw(t, "seg"))
			}
			q.Rest = strings.Join(segs, rapid.SampledFrom([]string{"/", "/", "//", "%2f"}).Draw(t, "sep"))
		}
		if q.Prefix == "" {
			q.Spell = max(0, rapid.IntRange(-12, 8).Draw(t, "spell"))
		}
		ac.Reqs = append(ac.Reqs, q)
	}
	return ac
}

func init() {
	register("C37", "Asset directories of 0-5 files (0-100000 bytes, in subdirectories, with odd names) between files that must not be reached, context and mapping paths of several levels, with and without a handler for every other path, and 1-6 GET requests parsed from their text: exact names, fully escaped names, missing files, dot segments, encoded dots and slashes, repeated slashes, absolute paths of the outside files, neighbouring prefixes, and the assets path itself in other spellings (repeated slashes, dot segments, escapes, letter case if it does not matter). Everything is inside a directory made for the case. Non-trivial: a file in a subdirectory or with an escaped name, a directory or a path that is not clean.",
		3000, 60000, genAssets, runAssets)
}
