package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"slices"
	"strings"
	"syscall"

	"github.com/ixtendio/gofre"
	gerrors "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router"
	"github.com/ixtendio/gofre/router/path"
	"pgregory.net/rapid"
)

// ---- C10: dispatch by method, errors ----

const (
	behOK = iota
	behError
	behWriteError // the client connection breaks
	behPayload    // the response itself cannot be produced
	behPanic
	behStatus // invalid status code
	behCount
)

type dispatchCase struct {
	CI   bool  `json:"ci"`
	Def  int   `json:"def,omitempty"` // 1: the default router, 2: the default log function, 3: a mux without one
	Pats []Pat `json:"pats"`
	Reqs []struct {
		Method string `json:"m"`
		Path   Str    `json:"p"`
		Beh    int    `json:"b"`
		Body   Str    `json:"body"`
		Kind   int    `json:"k"`
		Ctx    int    `json:"ctx,omitempty"` // the state of the request's context
		Zip    int    `json:"zip,omitempty"` // 1, 2: behind the compression middleware, with deflate or gzip
		Err    int    `json:"err,omitempty"` // the kind of error
	} `json:"reqs"`
}

var errBroken = errors.New("connection broken")

// connErrs are errors that writing to a connection may give.
var connErrs = []error{errBroken, syscall.EPIPE, syscall.ECONNRESET, net.ErrClosed, io.ErrClosedPipe, os.ErrDeadlineExceeded, context.Canceled, http.ErrHandlerTimeout, io.ErrShortWrite,
	io.EOF, &net.OpError{Op: "write", Net: "tcp", Err: syscall.EPIPE}, http.ErrBodyNotAllowed, http.ErrContentLength}

// brokenWriter takes the given number of bytes; writes counts the ones that then fail.
type brokenWriter struct {
	*httptest.ResponseRecorder
	after  int
	err    error
	writes int
}

func newBroken(after, kind int) *brokenWriter {
	return &brokenWriter{ResponseRecorder: httptest.NewRecorder(), after: after, err: connErrs[kind%len(connErrs)]}
}

func (b *brokenWriter) Write(p []byte) (int, error) {
	if len(p) <= b.after {
		b.after -= len(p)
		return b.ResponseRecorder.Write(p)
	}
	n, _ := b.ResponseRecorder.Write(p[:b.after])
	b.after = 0
	b.writes++
	return n, b.err
}
func (b *brokenWriter) WriteString(p string) (int, error) { return b.Write([]byte(p)) }
func (b *brokenWriter) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{b}, r)
}

type failReader struct{ err error }

type writerFunc func([]byte) (int, error)

func (f writerFunc) Write(b []byte) (int, error) { return f(b) }

func (f failReader) Read([]byte) (int, error) { return 0, f.err }

// simpleResponse gives one of the response types with a body.
func simpleResponse(kind int, status int, body string) response.HttpResponse {
	switch kind {
	case 0:
		return response.PlainTextHttpResponse(status, body)
	case 1:
		return response.JsonHttpResponse(status, map[string]string{"v": body})
	case 2:
		return response.StreamHttpResponseWithHeaders(status, "text/plain", nil, strings.NewReader(body))
	case 3:
		return response.HtmlHttpResponse(status, body)
	}
	return response.RawWriterHttpResponseWithHeaders(status, "text/plain", nil, func(w io.Writer) error {
		_, err := io.WriteString(w, body)
		return err
	})
}

func mixCase(t *rapid.T, s string) string {
	if s == "" {
		return s
	}
	switch rapid.IntRange(0, 5).Draw(t, "mcase") {
	case 4:
		return strings.ToLower(s)
	case 5:
		return s[:1] + strings.ToLower(s[1:])
	}
	return s
}

func init() {
	methods := []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "PURGE"}
	register("C10", "Tables of 1-7 patterns over eight methods written in any letter case, and histories of 1-12 requests whose handler succeeds, returns an error, panics, or gives a response that cannot be written. Non-trivial: the history has a failing request that reaches a handler and a later one that is served.",
		8000, 120000, func(t *rapid.T) dispatchCase {
			var c dispatchCase
			c.CI = rapid.IntRange(0, 3).Draw(t, "ci") == 3
			ms := methods
			if rapid.Bool().Draw(t, "few") {
				ms = methods[:2]
			}
			if c.Def = max(0, rapid.IntRange(-2, 3).Draw(t, "default")); c.Def == 1 {
				c.CI = false
			}
			c.Pats = genPats(t, c.CI, 7, 4, ms)
			for i := range c.Pats {
				c.Pats[i].Method = mixCase(t, c.Pats[i].Method)
			}
			n := several(t, 1, 12, 80, "nreq")
			for i := 0; i < n; i++ {
				q := struct {
					Method string `json:"m"`
					Path   Str    `json:"p"`
					Beh    int    `json:"b"`
					Body   Str    `json:"body"`
					Kind   int    `json:"k"`
					Ctx    int    `json:"ctx,omitempty"` // the state of the request's context
					Zip    int    `json:"zip,omitempty"` // 1, 2: behind the compression middleware, with deflate or gzip
					Err    int    `json:"err,omitempty"` // the kind of error
				}{}
				q.Method = mixCase(t, rapid.SampledFrom(ms).Draw(t, "rm"))
				if rapid.IntRange(0, 11).Draw(t, "oddm") == 11 { // looks like one of them, or is one of others
					q.Method = rapid.SampledFrom([]string{"X-" + q.Method, q.Method + "S", q.Method[:len(q.Method)-1], " " + q.Method, "", "M-SEARCH", "TRACE", "CONNECT", "*"}).Draw(t, "oddmethod")
				}
				q.Path = Str(genPath(t, c.Pats))
				if len(c.Pats) > 0 && rapid.IntRange(0, 3).Draw(t, "aim") > 0 {
					p := rapid.SampledFrom(c.Pats).Draw(t, "target")
					if slices.Contains(methods, strings.ToUpper(q.Method)) {
						q.Method = mixCase(t, strings.ToUpper(p.Method))
					}
					q.Path = Str(genPath(t, []Pat{p}))
				}
				if rapid.IntRange(0, 2).Draw(t, "fail") == 2 {
					q.Beh = rapid.IntRange(1, behCount-1).Draw(t, "beh")
				}
				q.Body = Str(rapid.SampledFrom([]string{"", "x", "some body", strings.Repeat("long ", 300)}).Draw(t, "body"))
				q.Kind = rapid.IntRange(0, 4).Draw(t, "kind")
				q.Ctx = rapid.IntRange(0, 5).Draw(t, "ctx")
				q.Err = rapid.IntRange(0, 31).Draw(t, "err")
				if k := rapid.IntRange(0, 5).Draw(t, "zip"); k < 3 {
					q.Zip = k
				}
				c.Reqs = append(c.Reqs, q)
			}
			return c
		}, func(c *Ctx, dc dispatchCase) error {
			var logged []error
			var hits []int
			var next func() (response.HttpResponse, error)
			var r interface {
				http.Handler
			}
			var handle func(string, string, handler.Handler)
			if dc.Def == 3 {
				m, err := gofre.NewMuxHandler(&gofre.Config{CaseInsensitivePathMatch: dc.CI})
				if err != nil {
					return err
				}
				r, handle = m, func(method, pattern string, h handler.Handler) { m.HandleRequest(method, pattern, h) }
			} else {
				rt := router.NewRouter(dc.CI, func(err error) { logged = append(logged, err) })
				switch dc.Def {
				case 1:
					rt = router.NewRouterWithDefaultConfig()
				case 2:
					rt = router.NewRouter(dc.CI, nil)
				}
				r, handle = rt, func(method, pattern string, h handler.Handler) { rt.Handle(method, pattern, h) }
			}
			if dc.Def > 0 { // one line of the standard logger per error
				defer log.SetOutput(log.Writer())
				log.SetOutput(writerFunc(func(b []byte) (int, error) {
					logged = append(logged, errors.New(string(b)))
					return len(b), nil
				}))
				c.Class("default error log")
			}
			var pats []Pat
			for _, p := range dc.Pats {
				i := len(pats)
				var refused any
				func() {
					defer func() { refused = recover() }()
					handle(p.Method, p.String(), func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
						hits = append(hits, i)
						h := func(context.Context, path.MatchingContext) (response.HttpResponse, error) { return next() }
						if mc.R.Header.Get("Accept-Encoding") != "" {
							return middleware.CompressResponse(5)(h)(ctx, mc)
						}
						return h(ctx, mc)
					})
				}()
				if refused == nil { // duplicates are C05's subject
					p.Method = strings.ToUpper(p.Method)
					pats = append(pats, p)
				}
			}
			failed := false
			for k, q := range dc.Reqs {
				logged, hits = nil, nil
				m := matching(pats, strings.ToUpper(q.Method), string(q.Path), dc.CI)
				hErr := fmt.Errorf("handler failure %d", k)
				if e := []error{nil, context.Canceled, io.EOF, gerrors.ErrAccessDenied, context.DeadlineExceeded, http.ErrAbortHandler, gerrors.NewBadRequest(io.EOF), gerrors.ErrUnauthorizedRequest}[q.Err&7]; e != nil {
					if hErr = e; q.Kind%2 == 0 {
						hErr = fmt.Errorf("handler failure %d: %w", k, e)
					}
				}
				pv := fmt.Sprintf("panic %d", k)
				wErr := fmt.Errorf("payload failure %d", k)
				if q.Err%2 == 1 {
					wErr = sourceErrs[q.Err%len(sourceErrs)]
					if wErr == io.EOF && q.Kind%2 == 0 { // (of a reader it is the end)
						wErr = io.ErrUnexpectedEOF
					}
				}
				rctx, cancel := context.WithCancel(context.Background())
				switch q.Ctx {
				case 1: // the client is gone already
					cancel()
				case 2:
					rctx, cancel = context.WithTimeout(context.Background(), 0)
				}
				defer cancel()
				c.ClassIf(q.Ctx == 1 || q.Ctx == 2 || q.Ctx == 3, "request whose context ends")
				var rec *httptest.ResponseRecorder
				var w http.ResponseWriter
				bw := newBroken([]int{0, 0, 10, 30}[q.Err/8%4], q.Err)
				rec = bw.ResponseRecorder
				w = rec
				next = func() (response.HttpResponse, error) {
					if q.Ctx == 3 { // the client goes away meanwhile
						cancel()
					}
					switch q.Beh {
					case behError:
						if q.Kind >= 2 {
							return simpleResponse(q.Kind, []int{299, 200, 404, 503, 401, 302}[q.Err%6], string(q.Body)), hErr
						}
						return nil, hErr
					case behPanic:
						panic(pv)
					case behPayload:
						if q.Kind%2 == 0 {
							return response.StreamHttpResponse("text/plain", failReader{wErr}), nil
						}
						return response.RawWriterHttpResponse("text/plain", func(io.Writer) error { return wErr }), nil
					case behStatus:
						return simpleResponse(q.Kind, 99, string(q.Body)), nil
					}
					return simpleResponse(q.Kind, 299, string(q.Body)), nil
				}
				if q.Beh == behWriteError {
					w = bw
				}
				var panicked any
				func() {
					defer func() { panicked = recover() }()
					req := newReq(q.Method, string(q.Path)).WithContext(rctx)
					if q.Zip > 0 {
						req.Header.Set("Accept-Encoding", []string{"gzip", "deflate"}[q.Zip%2])
					}
					r.ServeHTTP(w, req)
				}()
				c.ClassIf(q.Zip > 0 && q.Beh == behWriteError, "write error behind compression")
				where := fmt.Sprintf("request %d, %s %q (patterns %q): status %d, handlers run %v, logged %v", k, q.Method, q.Path, patStrings(pats), rec.Code, hits, logged)
				if len(m) == 0 {
					if panicked != nil || len(hits) != 0 || rec.Code != 404 {
						return fmt.Errorf("no handler for this method and path, want 404; %s (panic %v)", where, panicked)
					}
					if len(logged) != 0 {
						return fmt.Errorf("a request that ends without an error was logged; %s", where)
					}
					continue
				}
				if len(hits) != 1 || !contains(m, hits[0]) {
					return fmt.Errorf("patterns %v match; %s", m, where)
				}
				if failed {
					c.NonTrivial()
				}
				c.Class([]string{"handler succeeds", "handler error", "write error", "payload error", "handler panics", "invalid status"}[q.Beh])
				if q.Beh != behOK {
					failed = true
				}
				if panicked != nil && q.Beh != behPanic {
					return fmt.Errorf("panic %v; %s", panicked, where)
				}
				var want error
				switch q.Beh {
				case behOK:
					if rec.Code != 299 {
						return fmt.Errorf("want the response of the handler (status 299); %s", where)
					}
				case behError:
					want = hErr
					if rec.Code != 500 {
						return fmt.Errorf("the handler returned an error, want status 500; %s", where)
					}
				case behPayload:
					want = wErr
				case behWriteError:
					if bw.writes > 0 {
						want = bw.err
					}
				case behStatus:
					if len(logged) == 0 {
						return fmt.Errorf("writing a response with status 99 failed, but nothing was logged; %s", where)
					}
					continue
				case behPanic:
					continue
				}
				if want == nil && len(logged) != 0 {
					return fmt.Errorf("a request that ends without an error was logged; %s", where)
				}
				if want != nil && (len(logged) != 1 || !(errors.Is(logged[0], want) || dc.Def > 0 && strings.Contains(logged[0].Error(), want.Error()))) {
					return fmt.Errorf("want exactly one log entry, which is or wraps the error %q; %s", want, where)
				}
			}
			return nil
		})
}

// ---- C11, C12: muxes and middlewares ----

const (
	mwPass = iota
	mwAnswer
	mwFail
	mwNil
	mwReplace // passes on, then replaces the response by its own
	mwSwallow // passes on, then turns an error into a response
)

type mwSpec struct {
	ID  int `json:"id"`
	Beh int `json:"b"`
}

type muxOp struct {
	Op   string   `json:"op"` // clone, prefix, common, handle
	On   int      `json:"on"`
	Arg  string   `json:"arg,omitempty"`
	Meth string   `json:"meth,omitempty"`
	Mws  []mwSpec `json:"mws,omitempty"`
	Err  bool     `json:"err,omitempty"` // the handler fails
}

type muxCase struct {
	CI      bool    `json:"ci"`
	Ops     []muxOp `json:"ops"`
	Poison  bool    `json:"poison"` // overwrite the slices passed to the mux after each call
	Probes  []Str   `json:"probes"`
	Through []int   `json:"through"` // which mux serves the requests
}

type trace struct{ ev []string }

func (tr *trace) add(s string) { tr.ev = append(tr.ev, s) }

var errMw = errors.New("middleware failure")
var errHandler = errors.New("handler failure")

func (tr *trace) mw(s mwSpec) middleware.Middleware {
	if s.Beh == mwNil {
		return nil
	}
	return func(next handler.Handler) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			tr.add(fmt.Sprintf("+%d", s.ID))
			defer tr.add(fmt.Sprintf("-%d", s.ID))
			switch s.Beh {
			case mwAnswer:
				return response.PlainTextHttpResponse(250, fmt.Sprintf("mw%d", s.ID)), nil
			case mwFail:
				return nil, fmt.Errorf("mw%d: %w", s.ID, errMw)
			}
			resp, err := next(context.WithValue(ctx, mwKey(s.ID), true), mc)
			if s.Beh == mwReplace && err == nil {
				return response.PlainTextHttpResponse(251, fmt.Sprintf("mw%d", s.ID)), nil
			}
			if s.Beh == mwSwallow && err != nil {
				return response.PlainTextHttpResponse(252, fmt.Sprintf("mw%d", s.ID)), nil
			}
			return resp, err
		}
	}
}

type mwKey int

// predictTrace gives the events, status and body for a stack of middlewares around handler h.
func predictTrace(stack []mwSpec, h int, hErr bool) (ev []string, status int, body string) {
	var rec func(i int) (status int, body string, failed bool)
	rec = func(i int) (int, string, bool) {
		for i < len(stack) && stack[i].Beh == mwNil {
			i++
		}
		if i == len(stack) {
			ev = append(ev, fmt.Sprintf("h%d", h))
			if hErr {
				return 500, "", true
			}
			return 240, fmt.Sprintf("h%d", h), false
		}
		s := stack[i]
		ev = append(ev, fmt.Sprintf("+%d", s.ID))
		defer func() { ev = append(ev, fmt.Sprintf("-%d", s.ID)) }()
		own := fmt.Sprintf("mw%d", s.ID)
		switch s.Beh {
		case mwAnswer:
			return 250, own, false
		case mwFail:
			return 500, "", true
		}
		st, b, f := rec(i + 1)
		if s.Beh == mwReplace && !f {
			return 251, own, false
		}
		if s.Beh == mwSwallow && f {
			return 252, own, false
		}
		return st, b, f
	}
	status, body, _ = rec(0)
	return
}

type muxModel struct {
	prefix string
	common []mwSpec
}

type muxRoute struct {
	meth, full string
	stack      []mwSpec
	err        bool
}

func joinPath(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	return strings.TrimSuffix(a, "/") + "/" + strings.TrimPrefix(b, "/")
}

func runMux(c *Ctx, mc muxCase) error {
	var logged []error
	m0, err := gofre.NewMuxHandler(&gofre.Config{CaseInsensitivePathMatch: mc.CI, ErrLogFunc: func(err error) { logged = append(logged, err) }})
	if err != nil {
		return err
	}
	muxes := []*gofre.MuxHandler{m0}
	models := []muxModel{{}}
	var routes []muxRoute
	var tr trace
	taken := map[string]bool{}
	poison := func(next handler.Handler) handler.Handler {
		return func(context.Context, path.MatchingContext) (response.HttpResponse, error) {
			return response.PlainTextHttpResponse(599, "a middleware that was never registered"), nil
		}
	}
	build := func(specs []mwSpec) []middleware.Middleware {
		out := make([]middleware.Middleware, len(specs), len(specs)+4)
		for i, s := range specs {
			out[i] = tr.mw(s)
		}
		return out
	}
	spoil := func(s []middleware.Middleware) {
		if mc.Poison {
			s = s[:cap(s)]
			for i := range s {
				s[i] = poison
			}
		}
	}
	derivedThenCommon := false
	for _, op := range mc.Ops {
		i := op.On % len(muxes)
		m, md := muxes[i], &models[i]
		switch op.Op {
		case "clone":
			muxes = append(muxes, m.Clone())
			models = append(models, muxModel{md.prefix, append([]mwSpec(nil), md.common...)})
		case "prefix":
			muxes = append(muxes, m.RouteUsingPathPrefix(op.Arg))
			models = append(models, muxModel{joinPath(md.prefix, op.Arg), append([]mwSpec(nil), md.common...)})
		case "common":
			a := build(op.Mws)
			m.CommonMiddlewares(a...)
			spoil(a)
			md.common = append(append([]mwSpec(nil), md.common...), op.Mws...)
			if len(muxes) > 1 && len(op.Mws) > 0 {
				derivedThenCommon = true
			}
		case "handle":
			full := joinPath(md.prefix, op.Arg)
			meth := op.Meth
			segs, ok := normalise(full)
			key := meth + " /" + strings.Join(segs, "/")
			if mc.CI {
				key = strings.ToLower(key)
			}
			if !ok || full == "" || taken[key] {
				continue
			}
			taken[key] = true
			h := len(routes)
			hErr := op.Err
			stack := append(append([]mwSpec(nil), md.common...), op.Mws...)
			routes = append(routes, muxRoute{meth, full, stack, hErr})
			want := map[mwKey]bool{}
			for _, s := range stack {
				if s.Beh != mwNil {
					want[mwKey(s.ID)] = true
				}
			}
			hf := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
				tr.add(fmt.Sprintf("h%d", h))
				for k := range want {
					if ctx.Value(k) != true {
						tr.add(fmt.Sprintf("context of %d lost", int(k)))
					}
				}
				if hErr {
					return nil, errHandler
				}
				return response.PlainTextHttpResponse(240, fmt.Sprintf("h%d", h)), nil
			}
			a := build(op.Mws)
			switch meth {
			case "GET":
				m.HandleGet(op.Arg, hf, a...)
			case "POST":
				m.HandlePost(op.Arg, hf, a...)
			case "PUT":
				m.HandlePut(op.Arg, hf, a...)
			case "PATCH":
				m.HandlePatch(op.Arg, hf, a...)
			case "DELETE":
				m.HandleDelete(op.Arg, hf, a...)
			default:
				m.HandleRequest(meth, op.Arg, hf, a...)
			}
			spoil(a)
		}
	}
	// requests: every registered route at its own path, then the extra probes
	type probe struct{ meth, path string }
	var probes []probe
	for _, r := range routes {
		probes = append(probes, probe{r.meth, r.full})
	}
	for _, p := range mc.Probes {
		for _, me := range []string{"GET", "POST", "PURGE"} {
			probes = append(probes, probe{me, string(p)})
		}
	}
	for k, p := range probes {
		segs, _ := normalise(p.path)
		found := -1
		for j, r := range routes {
			rs, _ := normalise(r.full)
			same := r.meth == p.meth && len(rs) == len(segs)
			for x := 0; same && x < len(rs); x++ {
				same = rs[x] == segs[x] || mc.CI && strings.EqualFold(rs[x], segs[x])
			}
			if same {
				found = j
			}
		}
		tr.ev, logged = nil, nil
		via := muxes[0]
		if len(mc.Through) > 0 {
			via = muxes[mc.Through[k%len(mc.Through)]%len(muxes)]
		}
		w := httptest.NewRecorder()
		via.ServeHTTP(w, newReq(p.meth, p.path))
		where := fmt.Sprintf("%s %q: status %d, body %q, events %v", p.meth, p.path, w.Code, clip(w.Body.String(), 80), tr.ev)
		if found < 0 {
			c.Class("request to no route")
			if w.Code != 404 || len(tr.ev) != 0 {
				return fmt.Errorf("nothing is registered here, want 404; %s", where)
			}
			continue
		}
		r := routes[found]
		ev, status, body := predictTrace(r.stack, found, r.err)
		active := 0
		for _, s := range r.stack {
			if s.Beh != mwNil {
				active++
			}
			c.Class([]string{"passing middleware", "answering middleware", "failing middleware", "nil middleware", "replacing middleware", "error-swallowing middleware"}[s.Beh])
		}
		if active > 1 && (len(muxes) == 1 || derivedThenCommon) {
			c.NonTrivial()
		}
		c.ClassIf(len(muxes) > 1, "several muxes")
		if strings.Join(ev, " ") != strings.Join(tr.ev, " ") || w.Code != status || w.Body.String() != body {
			return fmt.Errorf("want status %d, body %q, events %v; %s", status, body, ev, where)
		}
		if status == 500 && len(logged) != 1 {
			return fmt.Errorf("want the error logged once, got %v; %s", logged, where)
		}
	}
	return nil
}

func genMws(t *rapid.T, id *int, max int) []mwSpec {
	n := several(t, 0, max, 10*max, "nmw")
	var out []mwSpec
	for i := 0; i < n; i++ {
		*id++
		b := mwPass
		switch rapid.IntRange(0, 15).Draw(t, "mwbeh") {
		case 7:
			b = mwReplace
		case 8:
			b = mwSwallow
		case 9:
			b = mwAnswer
		case 10:
			b = mwFail
		case 11:
			b = mwNil
		}
		out = append(out, mwSpec{*id, b})
	}
	return out
}

var muxPaths = []string{"/", "/x", "/y", "/x/y", "/a", "/a/x", "x", "/x/", "", "/b/a", "/a/a", "/a/b/x", "/X", "y/"}

func genHandle(t *rapid.T, id *int, on int) muxOp {
	return muxOp{Op: "handle", On: on, Arg: rapid.SampledFrom(muxPaths).Draw(t, "path"),
		Meth: rapid.SampledFrom([]string{"GET", "GET", "POST", "PUT", "PATCH", "DELETE", "PURGE"}).Draw(t, "meth"),
		Mws:  genMws(t, id, 4), Err: rapid.IntRange(0, 4).Draw(t, "herr") == 4}
}

func init() {
	register("C11", "One mux; histories of 2-10 calls adding 0-4 common middlewares or registering a handler with 0-4 middlewares of its own. Middlewares pass on, answer, fail, replace the response, turn an error into a response or are nil. Every handler is requested and the recorded order of entering and leaving compared with the predicted one. Non-trivial: at least two middlewares around a requested handler.",
		8000, 120000, func(t *rapid.T) muxCase {
			c := muxCase{CI: rapid.IntRange(0, 3).Draw(t, "ci") == 3, Poison: rapid.Bool().Draw(t, "poison")}
			id := 0
			for n := several(t, 2, 10, 50, "nops"); n > 0; n-- {
				if rapid.IntRange(0, 2).Draw(t, "kind") == 0 {
					c.Ops = append(c.Ops, muxOp{Op: "common", Mws: genMws(t, &id, 4)})
				} else {
					op := genHandle(t, &id, 0)
					if op.Arg == "" || op.Arg[0] != '/' {
						op.Arg = "/" + op.Arg // a mux without a prefix needs rooted patterns
					}
					c.Ops = append(c.Ops, op)
				}
			}
			return c
		}, runMux)
	register("C12", "Histories of 3-28 calls over a tree of muxes: Clone, RouteUsingPathPrefix with non-empty prefixes, CommonMiddlewares and Handle*, on any of the muxes that exist. Every handler is requested under its full prefix, and 0-6 other paths, through any of the muxes. Non-trivial: common middlewares were added while several muxes existed and a requested handler has at least two middlewares.",
		8000, 120000, func(t *rapid.T) muxCase {
			c := muxCase{CI: rapid.IntRange(0, 3).Draw(t, "ci") == 3, Poison: rapid.Bool().Draw(t, "poison")}
			id := 0
			prefixes := []string{""}
			most, kinds, mws := 16, 6, 3
			if rapid.Bool().Draw(t, "commons") {
				most, kinds, mws = 28, 10, 2 // many additions of few middlewares
			}
			for n := rapid.IntRange(3, most).Draw(t, "nops"); n > 0; n-- {
				on := rapid.IntRange(0, len(prefixes)-1).Draw(t, "on")
				switch rapid.IntRange(0, kinds).Draw(t, "kind") {
				case 0:
					c.Ops = append(c.Ops, muxOp{Op: "clone", On: on})
					prefixes = append(prefixes, prefixes[on])
				case 1, 2:
					p := rapid.SampledFrom([]string{"/a", "/a/", "/b", "/a/b", "a", "b/", "/", "/A"}).Draw(t, "prefix")
					if prefixes[on] == "" && p[0] != '/' {
						p = "/" + p
					}
					c.Ops = append(c.Ops, muxOp{Op: "prefix", On: on, Arg: p})
					prefixes = append(prefixes, joinPath(prefixes[on], p))
				case 3, 7, 8, 9, 10:
					c.Ops = append(c.Ops, muxOp{Op: "common", On: on, Mws: genMws(t, &id, mws)})
				default:
					op := genHandle(t, &id, on)
					if prefixes[on] == "" && (op.Arg == "" || op.Arg[0] != '/') {
						op.Arg = "/" + op.Arg
					}
					c.Ops = append(c.Ops, op)
				}
			}
			for n := several(t, 0, 6, 30, "nprobes"); n > 0; n-- {
				c.Probes = append(c.Probes, Str(joinPath(rapid.SampledFrom(prefixes).Draw(t, "pp"), "/"+strings.TrimPrefix(rapid.SampledFrom(muxPaths).Draw(t, "pq"), "/"))))
			}
			c.Through = rapid.SliceOfN(rapid.IntRange(0, 7), 1, 5).Draw(t, "through")
			return c
		}, runMux)
}
