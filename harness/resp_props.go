package main

import (
	"bytes"
	"compress/flate"
	"compress/gzip"
	"context"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router"
	"github.com/ixtendio/gofre/router/path"
	"pgregory.net/rapid"
)

// serveThrough gives the handler of a router that answers every path with what h returns.
func serveThrough(h handler.Handler, logErr func(error)) http.HandlerFunc {
	r := router.NewRouter(false, logErr)
	for _, m := range []string{"GET", "POST", "PUT", "HEAD", "OPTIONS", "DELETE", "PATCH"} {
		r.Handle(m, "/**", h)
		r.Handle(m, "/", h)
	}
	return r.ServeHTTP
}

// ---- C29, C30: fidelity ----

type fidelityCase struct {
	Resp  respSpec `json:"resp"`
	Way   int      `json:"way"` // 0 recorder, 1 a writer without optional interfaces, 2 a server
	Break bool     `json:"break,omitempty"`
	After int      `json:"after,omitempty"` // bytes that the broken connection still takes
	Long  int64    `json:"long,omitempty"`  // instead: a stream (or raw response) of so many bytes
}

// longReader gives n bytes of a sequence that repeats after 65521.
type longReader struct{ at, n int64 }

var longPattern = func() []byte {
	b := make([]byte, 65521)
	x := uint32(1)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}()

func (l *longReader) Read(b []byte) (int, error) {
	if l.at >= l.n {
		return 0, io.EOF
	}
	b = b[:min(int64(len(b)), l.n-l.at)]
	n := copy(b, longPattern[l.at%int64(len(longPattern)):])
	l.at += int64(n)
	return n, nil
}

// longWriter checks what a longReader gave.
type longWriter struct {
	header http.Header
	status int
	at     int64
	wrong  int64 // 1 + the position of the first wrong byte
}

func (l *longWriter) Header() http.Header { return l.header }
func (l *longWriter) WriteHeader(s int)   { l.status = s }
func (l *longWriter) Write(b []byte) (int, error) {
	n := len(b)
	for len(b) > 0 {
		want := longPattern[l.at%int64(len(longPattern)):]
		k := min(len(b), len(want))
		if l.wrong == 0 && !bytes.Equal(b[:k], want[:k]) {
			l.wrong = l.at + 1
		}
		b = b[k:]
		l.at += int64(k)
	}
	return n, nil
}

func runLong(c *Ctx, f fidelityCase) error {
	w := &longWriter{header: http.Header{}}
	src := &longReader{n: f.Long}
	var resp response.HttpResponse = response.StreamHttpResponse("x/long", src)
	if f.Resp.Kind == rkRaw {
		resp = response.RawWriterHttpResponse("x/long", func(w io.Writer) error {
			_, err := io.Copy(w, src)
			return err
		})
	}
	err := resp.Write(w, path.MatchingContext{R: newReq("GET", "/x")})
	c.NonTrivial()
	c.Class("long stream")
	if err != nil || w.status != 200 || w.at != f.Long || w.wrong != 0 {
		return fmt.Errorf("a %s response of %d bytes: status %d, %d bytes sent, first wrong byte %d, error %v", rkNames[f.Resp.Kind], f.Long, w.status, w.at, w.wrong-1, err)
	}
	return nil
}

const (
	wayRecorder = iota
	wayPlain
	wayServer
)

func (f fidelityCase) send() (sent, error) {
	if f.Way != wayServer {
		return record(f.Resp.build(), newReq("GET", "/x"), f.Way == wayPlain), nil
	}
	var werr error
	s, err := realServer().do(serveThrough(func(context.Context, path.MatchingContext) (response.HttpResponse, error) {
		return f.Resp.build(), nil
	}, func(e error) { werr = e }), "GET", "/x", nil)
	if s.Err == nil {
		s.Err = werr
	}
	return s, err
}

func runHead(c *Ctx, f fidelityCase) error {
	st := f.Resp.wantStatus()
	if st < 100 || st > 999 {
		c.NonTrivial()
		c.Class("invalid status")
		if s := record(f.Resp.build(), newReq("GET", "/x"), f.Way == wayPlain); s.Err == nil {
			return fmt.Errorf("the status %d was sent without an error", st)
		}
		return nil
	}
	s, err := f.send()
	if err != nil {
		return fmt.Errorf("the request failed: %v", err)
	}
	ignore := []string{}
	if f.Way == wayServer {
		ignore = append(ignore, "Content-Length", "Connection")
		if _, ok := f.Resp.wantHeaders()["Content-Type"]; !ok {
			ignore = append(ignore, "Content-Type")
		}
	}
	c.Class("sent " + []string{"to a recorder", "to a plain writer", "over TCP"}[f.Way])
	c.Class(rkNames[f.Resp.Kind])
	if len(f.Resp.Headers)+len(f.Resp.Late) > 0 && len(f.Resp.Cookies)+len(f.Resp.LateC) > 0 {
		c.NonTrivial()
	}
	if err := f.Resp.checkHead(s.Status, s.Header, ignore...); err != nil {
		return fmt.Errorf("%s response: %w", rkNames[f.Resp.Kind], err)
	}
	return nil
}

func runBody(c *Ctx, f fidelityCase) error {
	if f.Long > 0 {
		return runLong(c, f)
	}
	c.Class(rkNames[f.Resp.Kind])
	if f.Break {
		w := newBroken(f.After, f.Resp.FailErr)
		err := f.Resp.build().Write(w, path.MatchingContext{R: newReq("GET", "/x")})
		if w.writes > 0 {
			c.NonTrivial()
			c.Class("broken connection")
			if err == nil {
				return fmt.Errorf("%s response: the connection failed but Write reported no error", rkNames[f.Resp.Kind])
			}
		}
		return nil
	}
	s, err := f.send()
	if err != nil {
		return fmt.Errorf("the request failed: %v", err)
	}
	if f.Resp.Fail && f.Resp.Kind >= rkStream && f.Resp.Kind <= rkTemplateHTML || f.Resp.Fail && f.Resp.Kind == rkJSON {
		c.NonTrivial()
		c.Class("failing source")
		if s.Err == nil {
			return fmt.Errorf("%s response: the source of the body failed but no error was reported", rkNames[f.Resp.Kind])
		}
		return nil
	}
	if s.Err != nil {
		return fmt.Errorf("%s response: unexpected error %v", rkNames[f.Resp.Kind], s.Err)
	}
	if f.Resp.Kind == rkHeaders && s.Body == "" {
		return nil
	}
	if f.Resp.Body != "" || f.Resp.JSON != nil || f.Resp.Go > 0 {
		c.NonTrivial()
	}
	if err := f.Resp.checkBody(s.Body); err != nil {
		return fmt.Errorf("%s response: %w", rkNames[f.Resp.Kind], err)
	}
	return nil
}

// ---- C31: pooled maps ----

type poolOp struct {
	Op string `json:"op"` // new, hold, header, cookie, write, look
	R  int    `json:"r"`
	K  string `json:"k,omitempty"`
	// Held sets through the map that the last hold of this response got.
	Held bool `json:"held,omitempty"`
}

type poolCase struct {
	Kinds []respSpec `json:"kinds"` // what new responses look like
	Ops   []poolOp   `json:"ops"`
}

func runPools(c *Ctx, pc poolCase) error {
	type live struct {
		resp         response.HttpResponse
		h, ever      map[string]map[string]bool // header name -> values set since the last write / ever
		last         map[string]string
		ck, everC    map[string]bool
		lastC        map[string]string
		fixed        map[string]string // headers of the type
		written, mod bool
		heldH        response.HttpHeaders // maps obtained since the last write
		heldC        response.HttpCookies
	}
	var rs []*live
	uniq := 0
	next := func() string { uniq++; return fmt.Sprintf("v%d", uniq) }
	set := func(l *live, k, v string) {
		l.last[http.CanonicalHeaderKey(k)] = v
		if l.ever[http.CanonicalHeaderKey(k)] == nil {
			l.ever[http.CanonicalHeaderKey(k)] = map[string]bool{}
		}
		l.ever[http.CanonicalHeaderKey(k)][v] = true
	}
	setC := func(l *live, ck *http.Cookie) {
		l.lastC[ck.Name] = ck.String()
		l.everC[ck.String()] = true
	}
	// written headers are exactly the ones set since the last write, plus at most ones set before
	check := func(what string, l *live, h http.Header) error {
		for k, v := range l.last {
			if got := h[k]; len(got) != 1 || got[0] != v {
				return fmt.Errorf("%s: the header %s is %q, want %q", what, k, got, v)
			}
		}
		for k, vs := range h {
			if k == "Set-Cookie" {
				continue
			}
			for _, v := range vs {
				if !l.ever[k][v] && l.fixed[k] != v {
					return fmt.Errorf("%s: the header %s: %q was never set on this response", what, k, v)
				}
			}
		}
		sentC := map[string]bool{}
		for _, v := range h["Set-Cookie"] {
			sentC[v] = true
			if !l.everC[v] {
				return fmt.Errorf("%s: the cookie %q was never set on this response", what, v)
			}
		}
		for _, v := range l.lastC {
			if !sentC[v] {
				return fmt.Errorf("%s: the cookie %q is missing", what, v)
			}
		}
		return nil
	}
	look := func(what string, l *live) error {
		for k, v := range l.resp.Headers() {
			if !l.ever[http.CanonicalHeaderKey(k)][v] {
				return fmt.Errorf("%s: Headers() holds %s: %q, which was never set on this response", what, k, v)
			}
		}
		for _, ck := range l.resp.Cookies() {
			if !l.everC[ck.String()] {
				return fmt.Errorf("%s: Cookies() holds %q, which was never set on this response", what, ck)
			}
		}
		for k, v := range l.last {
			if got := l.resp.Headers()[k]; got != v {
				return fmt.Errorf("%s: Headers() holds %s: %q, want %q", what, k, got, v)
			}
		}
		n := 0
		for _, v := range l.lastC {
			for _, ck := range l.resp.Cookies() {
				if ck.String() == v {
					n++
				}
			}
		}
		if n != len(l.lastC) {
			return fmt.Errorf("%s: Cookies() holds %d of the %d cookies that were set", what, n, len(l.lastC))
		}
		return nil
	}
	for i, o := range pc.Ops {
		what := fmt.Sprintf("operation %d (%s %d)", i, o.Op, o.R)
		if o.Op == "new" {
			spec := pc.Kinds[o.R%len(pc.Kinds)]
			for j := range spec.Headers {
				spec.Headers[j].V = Str(next())
			}
			for j := range spec.Cookies {
				spec.Cookies[j].Value = next()
			}
			l := &live{ever: map[string]map[string]bool{}, last: map[string]string{}, everC: map[string]bool{}, lastC: map[string]string{}}
			l.resp = spec.build()
			for _, x := range spec.Headers {
				set(l, x.K, string(x.V))
			}
			for _, x := range spec.Cookies {
				setC(l, x.real())
			}
			bare := spec
			bare.Headers = nil
			l.fixed = bare.wantHeaders()
			rs = append(rs, l)
			continue
		}
		if len(rs) == 0 {
			continue
		}
		l := rs[o.R%len(rs)]
		switch o.Op {
		case "hold":
			l.heldH, l.heldC = l.resp.Headers(), l.resp.Cookies()
		case "header":
			v := next()
			h := l.resp.Headers()
			if o.Held && l.heldH != nil {
				c.Class("header set through a map obtained earlier")
				h = l.heldH
			}
			h.Set(o.K, v)
			set(l, o.K, v)
			l.mod = l.mod || l.written
		case "cookie":
			ck := &http.Cookie{Name: "c" + o.K, Value: next()}
			cs := l.resp.Cookies()
			if o.Held && l.heldC != nil {
				cs = l.heldC
			}
			cs.Add(ck)
			setC(l, ck)
			l.mod = l.mod || l.written
		case "write":
			if l.written {
				c.NonTrivial()
				c.Class("written again")
				c.ClassIf(l.mod, "written again after a change")
			}
			s := record(l.resp, newReq("GET", "/x"), false)
			if s.Err != nil {
				c.Class("failed to write")
				l.last, l.lastC = map[string]string{}, map[string]string{} // nothing has to be sent
			}
			if err := check(what, l, s.Header); err != nil {
				return err
			}
			l.written, l.heldH, l.heldC = true, nil, nil
			l.last, l.lastC = map[string]string{}, map[string]string{}
		case "look":
			if err := look(what, l); err != nil {
				return err
			}
		}
	}
	for i, l := range rs {
		if err := look(fmt.Sprintf("response %d in the end", i), l); err != nil {
			return err
		}
	}
	return nil
}

// ---- C34: standard handlers ----

type wOp struct {
	Op string `json:"op"`
	K  string `json:"k,omitempty"`
	V  Str    `json:"v,omitempty"`
	N  int    `json:"n,omitempty"`
}

type stdCase struct {
	Ops    []wOp        `json:"ops"`
	Method string       `json:"m"`
	Target string       `json:"target"`
	Body   Str          `json:"body"`
	Late   []kv         `json:"late,omitempty"`
	Outer  []kv         `json:"outer,omitempty"` // headers that are set before the framework gets the request
	LateC  []cookieSpec `json:"lateCookies,omitempty"`
	Func   bool         `json:"func"`
	Server bool         `json:"server"`
	// Gone: 1, the request's context is done before; 2, during the handler; 3, it has a deadline (not over TCP).
	Gone int `json:"gone,omitempty"`
	// Parsed: the form of the request has been parsed before.
	Parsed bool `json:"parsed,omitempty"`
	// More are further requests to the same adapted handler; true: the framework's
	// side adds its headers and cookies again.
	More []bool `json:"more,omitempty"`
}

// stdHandler performs the operations on its ResponseWriter and notes what it saw.
func stdHandler(ops []wOp, note func(string)) http.HandlerFunc {
	return func(w http.ResponseWriter, r *http.Request) {
		_, fl := w.(http.Flusher)
		_, hj := w.(http.Hijacker)
		_, rf := w.(io.ReaderFrom)
		note(fmt.Sprintf("flusher %v, hijacker %v, readerFrom %v", fl, hj, rf))
		note(fmt.Sprintf("%s %s %s host %s from %v length %d", r.Method, r.URL, r.Proto, r.Host, r.RemoteAddr != "", r.ContentLength))
		hs := []string{}
		for k, v := range r.Header {
			hs = append(hs, fmt.Sprintf("%s=%q", k, v))
		}
		sort.Strings(hs)
		note(strings.Join(hs, ";"))
		note(fmt.Sprintf("form %v, post form %v", r.Form, r.PostForm))
		ctx := r.Context()
		_, dl := ctx.Deadline()
		note(fmt.Sprintf("context done %v, with deadline %v, value %v", ctx.Err(), dl, ctx.Value(stdKey{}) != nil))
		if cancel, ok := ctx.Value(stdKey{}).(context.CancelFunc); ok {
			cancel()
			note(fmt.Sprintf("context cancelled: %v", ctx.Err()))
		}
		runOps(ops, w, r, note)
	}
}

type stdKey struct{}

// plainHandler is a http.Handler that is no http.HandlerFunc.
type plainHandler struct {
	f func(http.ResponseWriter, *http.Request)
}

func (h plainHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) { h.f(w, r) }

func runOps(ops []wOp, w http.ResponseWriter, r *http.Request, note func(string)) {
	for _, o := range ops {
		v := string(o.V)
		switch o.Op {
		case "set":
			w.Header().Set(o.K, v)
		case "add":
			w.Header().Add(o.K, v)
		case "del":
			w.Header().Del(o.K)
		case "get":
			note(fmt.Sprintf("header %s is %q", o.K, w.Header()[http.CanonicalHeaderKey(o.K)]))
		case "status":
			w.WriteHeader(o.N)
		case "write":
			n, err := w.Write([]byte(v))
			note(fmt.Sprintf("wrote %d, %v", n, err))
		case "string":
			n, err := io.WriteString(w, v)
			note(fmt.Sprintf("wrote %d, %v", n, err))
		case "copy":
			n, err := io.Copy(w, &pieceReader{data: v, pieces: []int{o.N + 1}, err: io.EOF})
			note(fmt.Sprintf("copied %d, %v", n, err))
		case "flush":
			if f, ok := w.(http.Flusher); ok {
				f.Flush()
			}
		case "cookie":
			http.SetCookie(w, &http.Cookie{Name: "std" + o.K, Value: v})
		case "read":
			b, err := io.ReadAll(r.Body)
			note(fmt.Sprintf("read %q, %v", b, err))
		case "form":
			note(fmt.Sprintf("form value %q", r.FormValue("q")))
		case "error":
			http.Error(w, v, o.N)
		case "notfound":
			http.NotFound(w, r)
		case "redirect":
			http.Redirect(w, r, "/elsewhere", 302)
		case "content":
			http.ServeContent(w, r, "file.txt", time.Unix(1700000000, 0), strings.NewReader(v))
		case "length":
			w.Header().Set("Content-Length", fmt.Sprint(o.N))
		case "early":
			w.Header().Set("Link", "</early.css>; rel=preload")
			w.WriteHeader(o.N)
		case "announce":
			w.Header().Set("Trailer", "X-Trailer")
		case "trailer":
			w.Header().Set("X-Trailer", v)
		case "rcflush":
			note(fmt.Sprintf("flushed, %v", http.NewResponseController(w).Flush()))
		}
	}
}

func genOps(t *rapid.T, length bool) []wOp {
	var ops []wOp
	total := 0
	n := several(t, 0, 7, 60, "nops")
	for i := 0; i < n; i++ {
		o := wOp{Op: rapid.SampledFrom([]string{"set", "set", "add", "del", "get", "status", "write", "write", "write", "string", "copy", "flush", "cookie", "read", "form"}).Draw(t, "wop")}
		switch o.Op {
		case "set", "add", "del", "get":
			o.K = rapid.SampledFrom([]string{"X-A", "Content-Type", "x-b", "Vary", "Cache-Control"}).Draw(t, "k")
			o.V = Str(rapid.SampledFrom([]string{"1", "two", "text/css", ""}).Draw(t, "v"))
		case "status":
			o.N = rapid.SampledFrom([]int{200, 201, 204, 304, 404, 500, 299}).Draw(t, "n")
		case "write", "string", "copy":
			o.V = Str(genBody(t))
			o.N = rapid.IntRange(0, 600).Draw(t, "n")
			total += len(o.V)
		case "cookie":
			o.K, o.V = rapid.SampledFrom([]string{"1", "2"}).Draw(t, "k"), "v"
		}
		ops = append(ops, o)
	}
	switch rapid.IntRange(0, 9).Draw(t, "helper") {
	case 0:
		ops = append(ops, wOp{Op: "error", V: "went wrong", N: rapid.SampledFrom([]int{400, 500}).Draw(t, "n")})
	case 1:
		ops = append(ops, wOp{Op: "notfound"})
	case 2:
		ops = append(ops, wOp{Op: "redirect"})
	case 3:
		ops = append([]wOp{{Op: "content", V: Str(genBody(t))}}, wOp{Op: "get", K: "Content-Type"})
	case 4, 5:
		if length {
			ops = append([]wOp{{Op: "length", N: total}}, ops...)
		}
	case 7:
		if length {
			ops = append([]wOp{{Op: "set", K: "Transfer-Encoding", V: Str(rapid.SampledFrom([]string{"chunked", "identity"}).Draw(t, "te"))}}, ops...)
		}
	case 6:
		if length {
			ops = append(append([]wOp{{Op: "announce"}}, ops...), wOp{Op: "trailer", V: "the end"})
		}
	}
	if length && rapid.IntRange(0, 5).Draw(t, "early") == 5 {
		i := rapid.IntRange(0, len(ops)).Draw(t, "earlyat")
		ops = append(ops[:i:i], append([]wOp{{Op: "early", N: rapid.SampledFrom([]int{103, 103, 100, 102}).Draw(t, "earlycode")}}, ops[i:]...)...)
	}
	if rapid.IntRange(0, 5).Draw(t, "rc") == 5 {
		ops = append(ops, wOp{Op: "rcflush"})
	}
	return ops
}

func stdRequest(sc stdCase) *http.Request {
	r := testReq(sc.Method, sc.Target, strings.NewReader(string(sc.Body)))
	r.Header.Set("X-Request", "yes")
	if sc.Method == "POST" {
		r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	}
	return r
}

func runStd(c *Ctx, sc stdCase) error {
	var notes []string
	std := stdHandler(sc.Ops, func(s string) { notes = append(notes, s) })
	var hh handler.Handler
	if sc.Func {
		hh = handler.HandlerFunc2Handler(std)
	} else {
		hh = handler.Handler2Handler(plainHandler{std})
	}
	exec := func(framework, late bool) (sent, []string, error) {
		notes = nil
		if !late {
			sc := sc
			sc.Late, sc.LateC = nil, nil
			return execStd(sc, framework, std, hh, &notes)
		}
		return execStd(sc, framework, std, hh, &notes)
	}
	for round, late := range append([]bool{true}, sc.More...) {
		want, wantNotes, err := exec(false, late)
		if err != nil {
			return err
		}
		got, gotNotes, err := exec(true, late)
		if err != nil {
			return err
		}
		for _, o := range sc.Ops {
			switch o.Op {
			case "status", "write", "string", "copy", "content", "error":
				c.NonTrivial()
			}
		}
		c.ClassIf(sc.Server, "over TCP")
		c.ClassIf(round > 0 && !late && len(sc.Late)+len(sc.LateC) > 0, "further request without the headers added to the first")
		if err := sameResponse(got, want); err != nil {
			return fmt.Errorf("request %d: %w", round, err)
		}
		if !reflect.DeepEqual(gotNotes, wantNotes) {
			return fmt.Errorf("request %d: the handler saw %q, directly %q", round, gotNotes, wantNotes)
		}
	}
	return nil
}

func execStd(sc stdCase, framework bool, std http.HandlerFunc, hh handler.Handler, notes *[]string) (sent, []string, error) {
	var logged error
	var root http.HandlerFunc
	if framework {
		root = serveThrough(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			if sc.Parsed {
				mc.R.FormValue("q")
			}
			resp, err := hh(ctx, mc)
			for _, x := range sc.Late {
				resp.Headers().Set(x.K, string(x.V))
			}
			for _, x := range sc.LateC {
				resp.Cookies().Add(x.real())
			}
			return resp, err
		}, func(e error) { logged = e })
	} else {
		root = func(w http.ResponseWriter, r *http.Request) {
			seen := map[[3]string]cookieSpec{}
			for _, x := range sc.LateC {
				seen[[3]string{x.Name, x.Path, x.Domain}] = x
			}
			for _, x := range seen {
				http.SetCookie(w, x.real())
			}
			for _, x := range sc.Late {
				w.Header().Set(x.K, string(x.V))
			}
			if sc.Parsed {
				r.FormValue("q")
			}
			std(w, r)
		}
	}
	var s sent
	if sc.Server {
		var err error
		s, err = realServer().do(root, sc.Method, sc.Target, http.Header{"X-Request": {"yes"}})
		if err != nil {
			return s, *notes, fmt.Errorf("the request failed: %v", err)
		}
	} else {
		rec := httptest.NewRecorder()
		req := stdRequest(sc)
		ctx, cancel := context.WithCancel(req.Context())
		defer cancel()
		switch sc.Gone {
		case 1:
			ctx = context.WithValue(ctx, stdKey{}, true)
			cancel()
		case 2:
			ctx = context.WithValue(ctx, stdKey{}, cancel)
		case 3:
			var stop context.CancelFunc
			ctx, stop = context.WithDeadline(ctx, time.Now().Add(time.Hour))
			defer stop()
		}
		for _, x := range sc.Outer { // set by what the server wraps around the mux
			rec.Header().Add(x.K, string(x.V))
		}
		root(rec, req.WithContext(ctx))
		s = recorded(rec, nil)
	}
	if logged != nil {
		return s, *notes, fmt.Errorf("the framework logged %v", logged)
	}
	return s, *notes, nil
}

// sameResponse compares two received responses, except the headers in ignore.
func sameResponse(got, want sent, ignore ...string) error {
	if got.Status != want.Status {
		return fmt.Errorf("the status is %d, want %d", got.Status, want.Status)
	}
	skip := map[string]bool{}
	for _, k := range ignore {
		skip[k] = true
	}
	for _, pair := range []struct{ a, b http.Header }{{got.Header, want.Header}, {want.Header, got.Header}} {
		for k := range pair.a {
			if skip[k] {
				continue
			}
			x, y := append([]string{}, got.Header[k]...), append([]string{}, want.Header[k]...)
			if k == "Set-Cookie" {
				sort.Strings(x)
				sort.Strings(y)
			}
			if !reflect.DeepEqual(x, y) {
				return fmt.Errorf("the header %s is %q, want %q", k, x, y)
			}
		}
	}
	if (got.Err != nil) != (want.Err != nil) {
		return fmt.Errorf("reading the body gave %v, want %v", got.Err, want.Err)
	}
	if got.Body != want.Body {
		return fmt.Errorf("the body is %s (%d bytes), want %s (%d bytes)", clip(fmt.Sprintf("%q", got.Body), 300), len(got.Body), clip(fmt.Sprintf("%q", want.Body), 300), len(want.Body))
	}
	return nil
}

// ---- C27, C28: compression ----

func decode(enc, body string) (string, error) {
	switch enc {
	case "gzip":
		z, err := gzip.NewReader(strings.NewReader(body))
		if err != nil {
			return "", err
		}
		b, err := io.ReadAll(z)
		return string(b), err
	case "deflate":
		r := bytes.NewReader([]byte(body))
		b, err := io.ReadAll(flate.NewReader(r))
		if err == nil && r.Len() > 0 {
			err = fmt.Errorf("%d bytes after the end", r.Len())
		}
		return string(b), err
	}
	return "", fmt.Errorf("unknown content encoding %q", enc)
}

type compressCase struct {
	Resp   *respSpec `json:"resp,omitempty"`
	Ops    []wOp     `json:"ops,omitempty"` // of an adapted handler
	Redir  string    `json:"redir,omitempty"`
	Level  int       `json:"level"`
	Accept *string   `json:"accept"`
	Method string    `json:"m"`
	Twice  bool      `json:"twice,omitempty"` // two compression middlewares
}

func (cc compressCase) inner(context.Context, path.MatchingContext) (response.HttpResponse, error) {
	switch {
	case cc.Resp != nil:
		return cc.Resp.build(), nil
	case cc.Redir != "":
		return response.RedirectHttpResponse(cc.Redir), nil
	}
	return response.HandlerFuncAdaptor(func(w http.ResponseWriter, r *http.Request) { runOps(cc.Ops, w, r, func(string) {}) }), nil
}

func (cc compressCase) flushes() bool {
	for _, o := range cc.Ops {
		if o.Op == "flush" || o.Op == "rcflush" {
			return true
		}
	}
	return false
}

// deflated is the size of the text with the fastest compression.
func deflated(s string) int {
	var b bytes.Buffer
	w, _ := flate.NewWriter(&b, flate.BestSpeed)
	io.WriteString(w, s)
	w.Close()
	return b.Len()
}

func (cc compressCase) header() http.Header {
	// an empty list keeps the client from adding its own
	h := http.Header{"Accept-Encoding": nil}
	if cc.Accept != nil {
		h.Set("Accept-Encoding", *cc.Accept)
	}
	return h
}

// accepted analyses an Accept-Encoding value: listed (in any form) and plainly listed (no parameters) codings.
func accepted(v *string) (listed, plain, refused map[string]bool) {
	listed, plain, refused = map[string]bool{}, map[string]bool{}, map[string]bool{}
	if v == nil {
		return
	}
	for _, e := range strings.Split(strings.ToLower(*v), ",") {
		name, params, has := strings.Cut(e, ";")
		name = strings.TrimSpace(name)
		listed[name] = true
		if !has {
			plain[name] = true
		} else if q := strings.ReplaceAll(params, " ", ""); q == "q=0" || q == "q=0.0" || q == "q=0.000" {
			refused[name] = true
		}
	}
	return
}

// exchange performs the request with and without the middleware.
func (cc compressCase) exchange() (with, without sent, err error) {
	h := handler.Handler(cc.inner)
	without, err = realServer().do(serveThrough(h, func(error) {}), cc.Method, "/x", cc.header())
	if err != nil {
		return with, without, fmt.Errorf("the request without compression failed: %v", err)
	}
	h = middleware.CompressResponse(cc.Level)(h)
	if cc.Twice {
		h = middleware.CompressResponse(cc.Level)(h)
	}
	with, err = realServer().do(serveThrough(h, func(error) {}), cc.Method, "/x", cc.header())
	if err != nil {
		err = fmt.Errorf("the request with compression failed: %v", err)
	}
	return
}

func (cc compressCase) added(with, without sent) string {
	a, b := with.Header.Get("Content-Encoding"), without.Header.Get("Content-Encoding")
	if a != b {
		return a
	}
	return ""
}

func runCompress(c *Ctx, cc compressCase) error {
	with, without, err := cc.exchange()
	if err != nil {
		return err
	}
	if cl := with.Header.Get("Content-Length"); cl != "" && cc.Method != "HEAD" && with.Status != 304 && cl != fmt.Sprint(len(with.Body)) {
		return fmt.Errorf("Content-Length is %s but %d bytes were sent", cl, len(with.Body))
	}
	if with.Err != nil && without.Err == nil {
		return fmt.Errorf("the body cannot be read: %v", with.Err)
	}
	enc := cc.added(with, without)
	c.ClassIf(without.Header.Get("Content-Encoding") != "", "encoded by the handler")
	if enc != "" {
		if b := without.Header.Get("Content-Encoding"); b != "" {
			return fmt.Errorf("Content-Encoding %q became %q", b, enc)
		}
		c.Class("encoded " + enc)
		if cc.Method != "HEAD" {
			bytesSent := len(with.Body)
			with.Body, err = decode(enc, with.Body)
			if err != nil {
				return fmt.Errorf("the %s body cannot be decoded: %v", enc, err)
			}
			if n := len(with.Body); cc.Level != 0 && n >= 2000 && !cc.flushes() && deflated(with.Body)*4 < n {
				c.Class("long repetitive body")
				if bytesSent >= n {
					return fmt.Errorf("%d bytes were sent for a repetitive body of %d bytes at level %d", bytesSent, n, cc.Level)
				}
			}
			c.NonTrivial()
			c.ClassIf(len(with.Body) == 0, "empty body")
			c.ClassIf(without.Header.Get("Content-Length") != "" && cc.Resp == nil, "length known")
		}
	} else {
		c.Class("not encoded")
	}
	c.ClassIf(cc.Resp == nil && cc.Redir == "", "adapted handler")
	return sameResponse(with, without, "Content-Encoding", "Content-Length", "Transfer-Encoding", "Connection")
}

// ownEncodings are encodings that responses have already.
var ownEncodings = []string{"br", "br", "gzip", "deflate", "zstd", "identity", "x-gzip", "compress", "gzip, br", "aes128gcm", "own"}

func genCompress(t *rapid.T) compressCase {
	var c compressCase
	switch k := rapid.IntRange(0, 9).Draw(t, "what"); {
	case k < 5:
		s := genResp(t)
		s.Fail = rapid.IntRange(0, 9).Draw(t, "fail") == 9
		s.FailErr = rapid.IntRange(0, 15).Draw(t, "failerr")
		if rapid.IntRange(0, 9).Draw(t, "nobody") == 9 {
			s.Status = rapid.SampledFrom([]int{204, 304}).Draw(t, "st")
		}
		if rapid.IntRange(0, 6).Draw(t, "ce") == 6 {
			s.Headers = append(s.Headers, kv{"Content-Encoding", Str(rapid.SampledFrom(ownEncodings).Draw(t, "own"))})
		}
		c.Resp = &s
	case k == 5:
		c.Redir = "/to?x=1"
	default:
		c.Ops = genOps(t, true)
		if rapid.IntRange(0, 6).Draw(t, "ce") == 6 {
			c.Ops = append([]wOp{{Op: "set", K: "Content-Encoding", V: Str(rapid.SampledFrom(ownEncodings).Draw(t, "own"))}}, c.Ops...)
		}
	}
	c.Level = rapid.IntRange(-1, 9).Draw(t, "level")
	if rapid.IntRange(0, 9).Draw(t, "noaccept") > 0 {
		v := rapid.SampledFrom([]string{"gzip", "gzip, deflate, br", "deflate", "DEFLATE ", "br, GZip", "compress", "identity", "gzip;q=0.5, deflate", "gzip;q=0"}).Draw(t, "accept")
		c.Accept = &v
	}
	c.Method = rapid.SampledFrom([]string{"GET", "GET", "GET", "POST", "HEAD"}).Draw(t, "m")
	c.Twice = rapid.IntRange(0, 9).Draw(t, "twice") == 9
	return c
}

var mediaTypes = []string{"text/plain", "text/html; charset=utf-8", "application/json", "image/png", "image/svg+xml", "application/zip", "application/octet-stream", "application/gzip", "video/mp4", "font/woff2", "odd"}

func genAccept(t *rapid.T) string {
	var parts []string
	for n := several(t, 1, 5, 40, "ncodings"); n > 0; n-- {
		e := rapid.SampledFrom([]string{"gzip", "gzip", "deflate", "deflate", "compress", "br", "identity", "*", "x-gzip", "gzipx", "zstd", "", "de flate", "notgzip", "compression"}).Draw(t, "coding")
		b := []byte(e)
		for i := range b {
			if rapid.IntRange(0, 3).Draw(t, "up") == 3 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		e = string(b)
		if rapid.IntRange(0, 2).Draw(t, "param") == 2 {
			e += rapid.SampledFrom([]string{";q=0", "; q=0", ";q=1", ";q=0.5", " ;q=0.000", ";q=0.0"}).Draw(t, "q")
		}
		sp := []string{"", " ", "  ", "\t"}
		parts = append(parts, rapid.SampledFrom(sp).Draw(t, "sp1")+e+rapid.SampledFrom(sp).Draw(t, "sp2"))
	}
	return strings.Join(parts, ",")
}

func runNegotiate(c *Ctx, cc compressCase) error {
	if cc.Level < -1 || cc.Level > 9 {
		c.NonTrivial()
		c.Class("invalid level")
		r := newReq(cc.Method, "/x")
		r.Header = cc.header()
		resp, err := middleware.CompressResponse(cc.Level)(cc.inner)(r.Context(), path.MatchingContext{R: r})
		if err == nil || resp != nil && !reflect.ValueOf(resp).IsNil() {
			return fmt.Errorf("the level %d was accepted: %v, %v", cc.Level, resp, err)
		}
		return nil
	}
	with, without, err := cc.exchange()
	if err != nil {
		return err
	}
	listed, plain, refused := accepted(cc.Accept)
	enc := cc.added(with, without)
	accept := "none"
	if cc.Accept != nil {
		accept = fmt.Sprintf("%q", *cc.Accept)
	}
	gz, gzPlain, gzRefused := listed["gzip"] || listed["compress"], plain["gzip"] || plain["compress"], (refused["gzip"] || !listed["gzip"]) && (refused["compress"] || !listed["compress"])
	switch {
	case enc == "":
		c.Class("not encoded")
		if without.Body != "" && without.Header.Get("Content-Encoding") == "" && (gzPlain && !refused["gzip"] && !refused["compress"] || plain["deflate"] && !refused["deflate"]) {
			return fmt.Errorf("Accept-Encoding %s: the response was not compressed", accept)
		}
		if !gz && !listed["deflate"] {
			if cc.Accept != nil {
				c.NonTrivial()
			}
			return sameResponse(with, without)
		}
	case enc == "gzip":
		c.NonTrivial()
		c.Class("gzip")
		if !gz || gzRefused && !gzPlain {
			return fmt.Errorf("Accept-Encoding %s: the response was sent with gzip", accept)
		}
	case enc == "deflate":
		c.NonTrivial()
		c.Class("deflate")
		if !listed["deflate"] || refused["deflate"] && !plain["deflate"] {
			return fmt.Errorf("Accept-Encoding %s: the response was sent with deflate", accept)
		}
		if gzPlain && !refused["gzip"] && !refused["compress"] {
			return fmt.Errorf("Accept-Encoding %s: the response was sent with deflate instead of gzip", accept)
		}
	default:
		return fmt.Errorf("Accept-Encoding %s: the response was sent with %q", accept, enc)
	}
	return nil
}

// ---- C35: cookie sets ----

type cookieSetCase struct {
	First []cookieSpec   `json:"first"`
	Adds  [][]cookieSpec `json:"adds"` // a cookie without a name is a nil cookie
}

func runCookies(c *Ctx, cc cookieSetCase) error {
	want := map[[3]string]*http.Cookie{}
	conv := func(cs []cookieSpec) (out []*http.Cookie) {
		for _, x := range cs {
			if x.Name == "" {
				out = append(out, nil)
				continue
			}
			k := x.real()
			id := [3]string{k.Name, k.Path, k.Domain}
			if want[id] != nil {
				c.NonTrivial()
				c.Class("replaced")
			}
			want[id] = k
			out = append(out, k)
		}
		return
	}
	set := response.NewHttpCookie(conv(cc.First)...)
	check := func(i int) error {
		if len(set) != len(want) {
			return fmt.Errorf("after %d additions the set holds %d cookies, want %d", i, len(set), len(want))
		}
		seen := map[*http.Cookie]bool{}
		for _, k := range set {
			seen[k] = true
		}
		for id, k := range want {
			if !seen[k] {
				return fmt.Errorf("after %d additions the last cookie %q is not in the set", i, id)
			}
		}
		return nil
	}
	if err := check(0); err != nil {
		return err
	}
	for i, a := range cc.Adds {
		set.Add(conv(a)...)
		if err := check(i + 1); err != nil {
			return err
		}
	}
	resp := response.PlainTextResponseWithHeadersAndCookies(200, "x", nil, set)
	s := record(resp, newReq("GET", "/"), false)
	got := append([]string{}, s.Header["Set-Cookie"]...)
	lines := []string{}
	for _, k := range want {
		lines = append(lines, k.String())
	}
	sort.Strings(got)
	sort.Strings(lines)
	if strings.Join(got, "\n") != strings.Join(lines, "\n") {
		return fmt.Errorf("sent cookies %q, want %q", got, lines)
	}
	return nil
}

// ---- C36: redirects ----

type redirectCase struct {
	Kind    int          `json:"kind"` // 0: 302, 1: 301, 2: 303
	URL     Str          `json:"url"`
	Method  string       `json:"m"`
	Target  string       `json:"target"`
	Headers []kv         `json:"headers"`
	Cookies []cookieSpec `json:"cookies"`
	Way     int          `json:"way"`
}

func runRedirect(c *Ctx, rc redirectCase) error {
	build := func() *response.HttpRedirectResponse {
		var r *response.HttpRedirectResponse
		switch rc.Kind {
		case 0:
			r = response.RedirectHttpResponse(string(rc.URL))
		case 1:
			r = response.RedirectHttpResponseMovedPermanently(string(rc.URL))
		default:
			r = response.RedirectHttpResponseSeeOther(string(rc.URL))
		}
		for _, x := range rc.Headers {
			r.Headers().Set(x.K, string(x.V))
		}
		for _, x := range rc.Cookies {
			r.Cookies().Add(x.real())
		}
		return r
	}
	status := []int{302, 301, 303}[rc.Kind]
	ref := httptest.NewRecorder()
	http.Redirect(ref, testReq(rc.Method, rc.Target, nil), string(rc.URL), status)
	var s sent
	if rc.Way == wayServer {
		var err error
		s, err = realServer().do(serveThrough(func(context.Context, path.MatchingContext) (response.HttpResponse, error) {
			return build(), nil
		}, func(error) {}), rc.Method, rc.Target, nil)
		if err != nil {
			return fmt.Errorf("the request failed: %v", err)
		}
		c.Class("over TCP")
	} else {
		s = record(build(), testReq(rc.Method, rc.Target, nil), rc.Way == wayPlain)
	}
	if len(rc.Headers)+len(rc.Cookies) > 0 {
		c.NonTrivial()
	}
	if s.Err != nil {
		return fmt.Errorf("Write reported %v", s.Err)
	}
	want := map[string]string{"Location": ref.Header().Get("Location")}
	for _, x := range rc.Headers {
		want[http.CanonicalHeaderKey(x.K)] = string(x.V)
	}
	ignore := []string{}
	for _, k := range []string{"Content-Type", "X-Content-Type-Options", "Content-Length", "Connection"} {
		if _, ok := want[k]; !ok {
			ignore = append(ignore, k)
		}
	}
	if s.Status != status {
		return fmt.Errorf("the status is %d, want %d", s.Status, status)
	}
	return checkHeaders(s.Header, want, cookieLines(rc.Cookies), ignore...)
}

func init() {
	register("C29", "Responses of nine kinds built with every constructor, with statuses from -1 to 1000, 0-6 headers and 0-5 cookies given at construction or added later, sent to a recorder, to a writer without optional interfaces or over TCP. Non-trivial: the response has headers and cookies, or an invalid status.",
		12000, 150000, func(t *rapid.T) fidelityCase {
			f := fidelityCase{Resp: genResp(t), Way: rapid.IntRange(0, 7).Draw(t, "way")}
			switch f.Way {
			case 0, 1, 2, 3:
				f.Way = wayRecorder
			case 4, 5, 6:
				f.Way = wayPlain
			default:
				f.Way = wayServer
				if f.Resp.Status == 304 {
					f.Resp.Status = 204 // net/http takes the content type off a 304
				}
			}
			if f.Way != wayServer {
				switch rapid.IntRange(0, 9).Draw(t, "st") {
				case 0:
					f.Resp.Status = rapid.SampledFrom([]int{-1, 1, 99, 1000, -200, 1 << 31}).Draw(t, "invalid")
				case 1, 2:
					f.Resp.Status = rapid.IntRange(200, 999).Draw(t, "any")
				case 3:
					f.Resp.Status = rapid.SampledFrom([]int{100, 101, 103, 199, 999, 204, 304}).Draw(t, "edge")
				}
			}
			return f
		}, runHead)

	register("C30", "Responses of nine kinds with texts, binary data, JSON trees (as plain values, structs, marshalers, typed nils), error messages and template data, readers and writer functions that work in pieces, and readers, writer functions, templates, JSON payloads or connections that fail, and now and then streams of 4 MiB to 4 GiB; sent to a recorder, to a writer without optional interfaces or over TCP. Non-trivial: a payload that is not empty, or a failure.",
		12000, 150000, func(t *rapid.T) fidelityCase {
			f := fidelityCase{Resp: genResp(t), Way: rapid.SampledFrom([]int{0, 0, 0, 0, 1, 1, 1, 2}).Draw(t, "way")}
			f.Resp.Fail = rapid.IntRange(0, 5).Draw(t, "fail") == 5
			f.Resp.FailErr = rapid.IntRange(0, 15).Draw(t, "failerr")
			f.After = rapid.SampledFrom([]int{0, 0, 1, 7, 100, 4096, 5000}).Draw(t, "after")
			f.Break = rapid.IntRange(0, 7).Draw(t, "break") == 7
			if rapid.IntRange(0, 999).Draw(t, "long") == 777 {
				f = fidelityCase{Resp: respSpec{Kind: rapid.SampledFrom([]int{rkStream, rkRaw}).Draw(t, "longkind")}}
				f.Long = rapid.SampledFrom([]int64{1 << 22, 1 << 24, 1 << 25, 1 << 26, 1 << 28, 1<<32 + 1<<20}).Draw(t, "longlen") + int64(rapid.IntRange(-1, 5).Draw(t, "longplus"))
			}
			return f
		}, runBody)

	register("C31", "Histories of 2-25 operations: responses of nine kinds (with headers and cookies or without) are created, changed (also through maps obtained earlier), inspected and written, also several times; every value is unique. Non-trivial: a response is written a second time.",
		12000, 150000, func(t *rapid.T) poolCase {
			var c poolCase
			for n := rapid.IntRange(1, 3).Draw(t, "nkinds"); n > 0; n-- {
				s := genResp(t)
				s.Late, s.LateC = nil, nil
				if rapid.Bool().Draw(t, "noheaders") {
					s.Headers, s.Cookies = nil, nil
				}
				for i := range s.Headers {
					s.Headers[i].K = http.CanonicalHeaderKey(s.Headers[i].K)
				}
				for i := range s.Cookies {
					s.Cookies[i] = cookieSpec{Name: fmt.Sprintf("n%d", i)}
				}
				if rapid.IntRange(0, 7).Draw(t, "bad") == 7 {
					s.Status = 7
				}
				c.Kinds = append(c.Kinds, s)
			}
			c.Ops = append(c.Ops, poolOp{Op: "new"})
			for n := several(t, 1, 24, 120, "nops"); n > 0; n-- {
				o := poolOp{Op: rapid.SampledFrom([]string{"new", "new", "header", "header", "header", "cookie", "write", "write", "write", "look", "hold"}).Draw(t, "op"), R: rapid.IntRange(0, 5).Draw(t, "r")}
				if o.Op == "header" {
					o.K = rapid.SampledFrom([]string{"X-A", "X-B", "Etag"}).Draw(t, "k")
				} else if o.Op == "cookie" {
					o.K = rapid.SampledFrom([]string{"1", "2"}).Draw(t, "k")
				}
				o.Held = (o.Op == "header" || o.Op == "cookie") && rapid.Bool().Draw(t, "held")
				c.Ops = append(c.Ops, o)
			}
			return c
		}, runPools)

	register("C34", "Handlers that perform 0-8 operations on their ResponseWriter (headers, status, writes in any form, flushes, cookies, http.Error, NotFound, Redirect, ServeContent) and read their request and its context (now and then done, cancelled by the handler or with a deadline), served directly and through the adaptor on a recorder or over TCP, with 0-2 headers and cookies added by the framework's side, which up to two further requests may lack. Non-trivial: the handler sets a status or writes.",
		6000, 80000, func(t *rapid.T) stdCase {
			sc := stdCase{Ops: genOps(t, true), Method: rapid.SampledFrom([]string{"GET", "POST", "HEAD", "PUT"}).Draw(t, "m"),
				Target: rapid.SampledFrom([]string{"/", "/a/b?q=1&q=2", "/%2e%41?x=%20", "/a//b/"}).Draw(t, "target"), Func: rapid.Bool().Draw(t, "func"), Server: rapid.IntRange(0, 3).Draw(t, "server") == 3}
			if sc.Method == "POST" || sc.Method == "PUT" {
				sc.Body = Str(rapid.SampledFrom([]string{"", "q=body&r=1", "x\x00y"}).Draw(t, "body"))
			}
			sc.Gone = max(0, rapid.IntRange(-3, 3).Draw(t, "gone"))
			sc.Parsed = rapid.IntRange(0, 3).Draw(t, "parsed") == 3
			sc.Late = genHeaders(t, 2)
			sc.LateC = genCookies(t, 2)
			if rapid.IntRange(0, 3).Draw(t, "outer") == 3 {
				for _, k := range rapid.SliceOfN(rapid.SampledFrom([]string{"Content-Type", "X-Outer", "Set-Cookie", "Vary", "Cache-Control", "X-A", "Set-Cookie", "Etag"}), 1, 3).Draw(t, "outerk") {
					sc.Outer = append(sc.Outer, kv{k, Str(rapid.SampledFrom([]string{"outer/x", "o=1", "o=2; Path=/"}).Draw(t, "outerv"))})
				}
			}
			sc.More = rapid.SliceOfN(rapid.Bool(), 0, 2).Draw(t, "more")
			return sc
		}, runStd)

	register("C27", "Responses of nine kinds, redirects and adapted handlers (any writes, flushes, Content-Length, ServeContent, http.Error, own Content-Encoding, statuses without body), requested over TCP with and without the compression middleware (once or twice) at every level with several Accept-Encoding values and methods. Non-trivial: the response was encoded.",
		6000, 80000, genCompress, runCompress)

	register("C28", "Accept-Encoding values of 1-5 codings in any letter case, spacing and order, with and without quality values, and levels from -4 to 12, over text responses and adapted handlers. Non-trivial: the response is encoded, or the value lists none of the supported codings, or the level is invalid.",
		6000, 80000, func(t *rapid.T) compressCase {
			c := compressCase{Method: rapid.SampledFrom([]string{"GET", "GET", "GET", "POST", "PUT", "DELETE", "HEAD", "PURGE"}).Draw(t, "m"), Level: rapid.SampledFrom([]int{-1, 0, 1, 5, 9, -1, 0, 1, 5, 9, -2, 10, -4, 12}).Draw(t, "level")}
			if rapid.IntRange(0, 19).Draw(t, "noaccept") > 0 {
				v := genAccept(t)
				c.Accept = &v
			}
			if rapid.IntRange(0, 2).Draw(t, "adapted") == 0 {
				c.Ops = []wOp{{Op: "write", V: Str(rapid.SampledFrom([]string{"adapted body", "x", strings.Repeat("adapted ", 5000)}).Draw(t, "abody"))}}
				if rapid.Bool().Draw(t, "withtype") {
					c.Ops = append([]wOp{{Op: "set", K: "Content-Type", V: Str(rapid.SampledFrom(mediaTypes).Draw(t, "ct"))}}, c.Ops...)
				}
			} else {
				c.Resp = &respSpec{Kind: rapid.SampledFrom([]int{rkText, rkJSON, rkStream}).Draw(t, "kind"), Status: 200, CT: "text/plain", Body: "some body", JSON: "json body"}
				if rapid.Bool().Draw(t, "other") {
					c.Resp.Status = rapid.SampledFrom([]int{200, 201, 202, 203, 204, 299, 304, 400, 401, 404, 410, 418, 500, 503, 599, 999}).Draw(t, "status")
					c.Resp.CT = rapid.SampledFrom(mediaTypes).Draw(t, "ct")
				}
			}
			return c
		}, runNegotiate)

	register("C35", "Sets created with 0-3 cookies and 0-6 additions of 0-3 cookies that share or differ in name, path and domain, nil cookies included. Non-trivial: a cookie replaces another one.",
		12000, 150000, func(t *rapid.T) cookieSetCase {
			gen := func() []cookieSpec {
				cs := genCookies(t, 3)
				for i := range cs {
					if rapid.IntRange(0, 9).Draw(t, "nil") == 9 {
						cs[i] = cookieSpec{}
					} else if rapid.IntRange(0, 2).Draw(t, "close") == 0 {
						// the texts of name, path and domain run together to the same
						k := rapid.SampledFrom([][3]string{{"a", "b", ""}, {"ab", "", ""}, {"a", "", "b"}, {"a", "b", "c"}, {"a", "bc", ""}, {"ab", "c", ""}, {"abc", "", ""}, {"a", "/b", "c"}, {"a", "/", "b"}, {"a", "/b", ""}, {"a", "/bc", ""}}).Draw(t, "id")
						cs[i].Name, cs[i].Path, cs[i].Domain = k[0], k[1], k[2]
					}
				}
				return cs
			}
			c := cookieSetCase{First: gen()}
			for n := several(t, 0, 6, 50, "adds"); n > 0; n-- {
				c.Adds = append(c.Adds, gen())
			}
			return c
		}, runCookies)

	register("C36", "Redirects of the three kinds to absolute, rooted, relative, empty and odd URLs, from request paths of several depths and methods, with 0-3 headers and 0-3 cookies put on the response, sent to a recorder, a plain writer or over TCP; http.Redirect is the reference for Location. Non-trivial: the response has headers or cookies.",
		8000, 100000, func(t *rapid.T) redirectCase {
			rc := redirectCase{Kind: rapid.IntRange(0, 2).Draw(t, "kind"), Method: rapid.SampledFrom([]string{"GET", "GET", "POST", "HEAD"}).Draw(t, "m"),
				URL:    Str(rapid.SampledFrom([]string{"/", "/a/b?x=1&y=%20#f", "https://example.com/x?y=z", "//host/x", "rel", "../up?q=a/../b", "./", "", "?q=1", "mailto:x@y", "/ü/日本", "/a b", "http://[::1]/", "/a%2Fb", ":", "/trail/", "\xff", "?q=a b+c%20d", "/x?q=two  spaces&r=#a b", "rel?to=/a/../b&u=http://h/?x=y z"}).Draw(t, "url")),
				Target: rapid.SampledFrom([]string{"/", "/a", "/a/b/c?z=1", "/a/b/"}).Draw(t, "target")}
			if n := rapid.IntRange(0, 9).Draw(t, "longurl"); n >= 8 {
				rc.URL += Str(strings.Repeat("/long", 100*(n-7)*(n-7)*(n-7)*(n-7)))
			}
			for _, x := range genHeaders(t, 3) {
				if x.K != "Location" {
					rc.Headers = append(rc.Headers, x)
				}
			}
			rc.Cookies = genCookies(t, 3)
			rc.Way = rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "way")
			return rc
		}, runRedirect)
}
