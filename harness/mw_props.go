package main

import (
	"context"
	"crypto/tls"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	gerr "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"pgregory.net/rapid"
)

// anyResp is a response of any type that needs no special connection.
type anyResp struct {
	Alt     string       `json:"alt,omitempty"` // "": Spec, else redirect or adapted
	Spec    *respSpec    `json:"spec,omitempty"`
	Ops     []wOp        `json:"ops,omitempty"`
	URL     string       `json:"url,omitempty"`
	Headers []kv         `json:"headers,omitempty"` // set on a redirect or adapted response
	Cookies []cookieSpec `json:"cookies,omitempty"`
}

func (a anyResp) build() response.HttpResponse {
	var r response.HttpResponse
	switch a.Alt {
	case "redirect":
		r = response.RedirectHttpResponseSeeOther(a.URL)
	case "adapted":
		r = response.HandlerFuncAdaptor(stdHandler(a.Ops, func(string) {}))
	default:
		return a.Spec.build()
	}
	for _, x := range a.Headers {
		r.Headers().Set(x.K, string(x.V))
	}
	for _, x := range a.Cookies {
		r.Cookies().Add(x.real())
	}
	return r
}

// set gives the headers put on the response, by canonical name.
func (a anyResp) set() map[string]string {
	if a.Alt == "" {
		return a.Spec.own()
	}
	m := map[string]string{}
	for _, x := range a.Headers {
		m[http.CanonicalHeaderKey(x.K)] = string(x.V)
	}
	return m
}

func (a anyResp) cookies() []string {
	if a.Alt == "" {
		return a.Spec.wantCookies()
	}
	return cookieLines(a.Cookies)
}

func (a anyResp) name() string {
	if a.Alt == "" {
		return rkNames[a.Spec.Kind]
	}
	return a.Alt
}

func genAnyResp(t *rapid.T) anyResp {
	switch rapid.IntRange(0, 5).Draw(t, "alt") {
	case 4:
		a := anyResp{Alt: "redirect", URL: rapid.SampledFrom([]string{"/next", "https://other.test/x?y=1&z=ü", "rel"}).Draw(t, "url")}
		for _, x := range genHeaders(t, 3) {
			if x.K != "Location" && !strings.EqualFold(x.K, "Content-Type") {
				a.Headers = append(a.Headers, x)
			}
		}
		a.Cookies = genCookies(t, 2)
		return a
	case 5:
		return anyResp{Alt: "adapted", Ops: genOps(t, false), Headers: genHeaders(t, 2), Cookies: genCookies(t, 2)}
	}
	s := genResp(t)
	return anyResp{Spec: &s}
}

// through sends one request through a router whose only handler is h behind ms,
// the first middleware being the outermost one.
func through(h handler.Handler, ms []middleware.Middleware, r *http.Request) (sent, []error) {
	for i := len(ms) - 1; i >= 0; i-- {
		h = ms[i](h)
	}
	var logged []error
	rec := httptest.NewRecorder()
	serveThrough(h, func(e error) { logged = append(logged, e) })(rec, r)
	return recorded(rec, nil), logged
}

// ---- C23: security headers ----

type secReq struct {
	H      int     `json:"h"`
	Secure int     `json:"secure"` // 0 plain, 1 TLS, 2 and 3 the URL's scheme
	Method string  `json:"method,omitempty"`
	Err    bool    `json:"err,omitempty"`
	Resp   anyResp `json:"resp"`
}

type secCase struct {
	STS, CJ, Sniff, XSS bool
	MaxAge              int
	Sub, Preload        bool
	Option              int // 0 unset, 1 DENY, 2 SAMEORIGIN, 3 ALLOW-FROM
	Value, URI          string
	Handlers            int
	Reqs                []secReq
}

func (s secCase) real() middleware.SecurityHeadersConfig {
	cj := middleware.ShClickJackingConfig{Enabled: s.CJ, XFrameOptionHeaderValue: s.Value, XFrameAllowFromUri: s.URI}
	switch s.Option {
	case 1:
		cj.XFrameOption = middleware.XFrameOptionDeny
	case 2:
		cj.XFrameOption = middleware.XFrameOptionSameOrigin
	case 3:
		cj.XFrameOption = middleware.XFrameOptionAllowFrom
	}
	return middleware.SecurityHeadersConfig{
		STS:                         middleware.ShStrictTransportSecurityConfig{Enabled: s.STS, MaxAgeSeconds: s.MaxAge, IncludeSubDomains: s.Sub, Preload: s.Preload},
		ClickJacking:                cj,
		BlockContentSniffingEnabled: s.Sniff,
		XSSProtectionEnabled:        s.XSS,
	}
}

var secNames = []string{"Strict-Transport-Security", "X-Frame-Options", "X-Content-Type-Options", "X-Xss-Protection"}

func directives(v string) string {
	var ds []string
	for _, d := range strings.Split(strings.ToLower(v), ";") {
		ds = append(ds, strings.TrimSpace(d))
	}
	sort.Strings(ds)
	return strings.Join(ds, ";")
}

// wantSec gives what the middleware puts into the response: name to normalised value.
func (s secCase) wantSec(secure bool) map[string]string {
	m := map[string]string{}
	if s.STS && secure {
		v := "max-age=" + strconv.Itoa(s.MaxAge)
		if s.Sub {
			v += ";includeSubDomains"
		}
		if s.Preload {
			v += ";preload"
		}
		m[secNames[0]] = v
	}
	if s.CJ {
		v := s.Value
		if v == "" {
			v = []string{"DENY", "DENY", "SAMEORIGIN", "ALLOW-FROM"}[s.Option]
		}
		if s.Option == 3 {
			v += " " + s.URI
		}
		m[secNames[1]] = v
	}
	if s.Sniff {
		m[secNames[2]] = "nosniff"
	}
	if s.XSS {
		m[secNames[3]] = "1; mode=block"
	}
	return m
}

// checkSec compares the security headers of a response with those of the same
// response without the middleware plus the configured ones.
func checkSec(got, bare http.Header, want map[string]string) error {
	for _, k := range secNames {
		g := got[k]
		if w, ok := want[k]; ok {
			if len(g) != 1 || directives(g[0]) != directives(w) {
				return fmt.Errorf("the header %s is %q, configured is %q", k, g, w)
			}
		} else if !reflect.DeepEqual(append([]string{}, g...), append([]string{}, bare[k]...)) {
			return fmt.Errorf("the header %s is %q, not configured, and %q without the middleware", k, g, bare[k])
		}
	}
	return nil
}

func secureRequest(r *http.Request, how int) bool {
	switch how {
	case 1:
		r.TLS = &tls.ConnectionState{}
	case 2:
		r.URL.Scheme, r.URL.Host = "https", "example.test"
	case 3:
		r.URL.Scheme, r.URL.Host = "HTTPS", "example.test"
	case 4:
		r.URL.Scheme, r.URL.Host = "http", "example.test"
	}
	return how >= 1 && how <= 3
}

func runSecurity(c *Ctx, sc secCase) error {
	mid := middleware.SecurityHeaders(sc.real())
	var cur secReq
	inner := func(context.Context, path.MatchingContext) (response.HttpResponse, error) {
		if cur.Err {
			return nil, errSource
		}
		return cur.Resp.build(), nil
	}
	hs := make([]handler.Handler, sc.Handlers)
	for i := range hs {
		hs[i] = mid(inner)
	}
	seen := [2]bool{}
	for i, q := range sc.Reqs {
		cur = q
		r := newReq(q.Method, "/x")
		secure := secureRequest(r, q.Secure)
		h := hs[q.H%len(hs)]
		if q.Err {
			resp, err := h(context.Background(), path.MatchingContext{R: r})
			if err != errSource || resp != nil && !reflect.ValueOf(resp).IsNil() {
				return fmt.Errorf("request %d: the error of the handler became %v, %v", i, resp, err)
			}
			continue
		}
		r2 := newReq(q.Method, "/x")
		secureRequest(r2, q.Secure)
		got, e1 := through(h, nil, r)
		bare, e2 := through(inner, nil, r2)
		if len(e1) != len(e2) {
			return fmt.Errorf("request %d (%s): errors %v, without the middleware %v", i, q.Resp.name(), e1, e2)
		}
		if err := checkSec(got.Header, bare.Header, sc.wantSec(secure)); err != nil {
			return fmt.Errorf("request %d (%s, secure %v): %w", i, q.Resp.name(), secure, err)
		}
		if err := sameResponse(got, bare, secNames...); err != nil {
			return fmt.Errorf("request %d (%s): %w", i, q.Resp.name(), err)
		}
		if len(sc.wantSec(secure)) > 0 {
			if secure {
				seen[1] = true
			} else {
				seen[0] = true
			}
		}
		c.Class(q.Resp.name())
	}
	if seen[0] && seen[1] {
		c.NonTrivial()
	}
	return nil
}

func genSecurity(t *rapid.T) secCase {
	sc := secCase{STS: rapid.Bool().Draw(t, "sts"), CJ: rapid.Bool().Draw(t, "cj"), Sniff: rapid.Bool().Draw(t, "sniff"), XSS: rapid.Bool().Draw(t, "xss"),
		MaxAge: rapid.SampledFrom([]int{0, 1, 31536000, 63072000, 1 << 31}).Draw(t, "maxage"), Sub: rapid.Bool().Draw(t, "sub"), Preload: rapid.Bool().Draw(t, "preload"),
		Option: rapid.IntRange(0, 3).Draw(t, "option"), Handlers: rapid.IntRange(1, 3).Draw(t, "handlers")}
	if rapid.Bool().Draw(t, "hasvalue") {
		sc.Value = rapid.SampledFrom([]string{"DENY", "SAMEORIGIN", "ALLOW-FROM", "Custom"}).Draw(t, "value")
	}
	if sc.Option == 3 {
		sc.URI = rapid.SampledFrom([]string{"https://frame.test", "https://a.test/x?y=1", "https://a.test/", "HTTPS://A.test:443/b/?q=%20#f"}).Draw(t, "uri")
	}
	for n := several(t, 1, 5, 30, "nreqs"); n > 0; n-- {
		q := secReq{H: rapid.IntRange(0, 2).Draw(t, "h"), Secure: rapid.IntRange(0, 4).Draw(t, "secure"), Err: rapid.IntRange(0, 7).Draw(t, "err") == 7, Resp: genAnyResp(t),
			Method: rapid.SampledFrom([]string{"GET", "GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS"}).Draw(t, "method")}
		if q.Resp.Spec != nil && rapid.IntRange(0, 3).Draw(t, "ownsec") == 3 {
			for _, k := range secNames {
				if _, ok := q.Resp.Spec.own()[k]; !ok && rapid.Bool().Draw(t, "own"+k) {
					q.Resp.Spec.Headers = append(q.Resp.Spec.Headers, kv{k, "own"})
				}
			}
		}
		sc.Reqs = append(sc.Reqs, q)
	}
	return sc
}

// ---- C24: panics ----

type evilError struct{}

func (evilError) Error() string { panic("Error of the panic value") }

type panicCase struct {
	Layers int          `json:"layers"` // middlewares below PanicRecover
	Twice  bool         `json:"twice,omitempty"`
	Gone   uint32       `json:"gone,omitempty"` // the requests whose client is gone
	Reqs   [][]panicAct `json:"reqs"`           // per request: the acts of the handler and then of every layer, inside out
}

type panicAct struct {
	Act string `json:"a"` // pass, before, after, error, answer, both (response and error)
	V   int    `json:"v,omitempty"`
}

const panicValues = 14

func doPanic(v int) {
	switch v {
	case 0:
		panic("text")
	case 1:
		panic(errors.New("an error"))
	case 2:
		panic(nil)
	case 3:
		panic(42)
	case 4:
		var p *panicAct
		_ = p.Act
	case 5:
		var m map[string]int
		m["x"] = 1
	case 6:
		i := 5
		_ = make([]int, 2)[i]
	case 7:
		panic(http.ErrAbortHandler)
	case 8:
		panic(evilError{})
	case 9:
		panic(struct{ A, B []int }{nil, []int{1}})
	case 10:
		var e error
		panic(e)
	case 11:
		panic((*evilError)(nil))
	case 12:
		var x any = "text"
		_ = x.(int)
	case 13:
		func() {
			defer func() { panic("panic while panicking") }()
			panic("first")
		}()
	}
	panic("unreachable")
}

func runPanic(c *Ctx, pc panicCase) error {
	type result struct {
		resp  response.HttpResponse
		err   error
		panic bool
	}
	responses := map[[2]int]response.HttpResponse{}
	errs := map[[2]int]error{}
	get := func(k [2]int) response.HttpResponse {
		if responses[k] == nil {
			responses[k] = response.PlainTextHttpResponse(210+k[1], fmt.Sprint("response ", k))
			errs[k] = fmt.Errorf("error %v", k)
		}
		return responses[k]
	}
	cur := 0
	var h handler.Handler = func(context.Context, path.MatchingContext) (response.HttpResponse, error) {
		a, k := pc.Reqs[cur][0], [2]int{cur, 0}
		get(k)
		switch a.Act {
		case "before", "after":
			doPanic(a.V)
		case "error":
			return nil, errs[k]
		case "both":
			return responses[k], errs[k]
		}
		return responses[k], nil
	}
	for l := 1; l <= pc.Layers; l++ {
		l, next := l, h
		h = func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			a, k := pc.Reqs[cur][l], [2]int{cur, l}
			get(k)
			if a.Act == "before" {
				doPanic(a.V)
			}
			if a.Act == "answer" {
				return responses[k], nil
			}
			resp, err := next(ctx, mc)
			if a.Act == "after" {
				doPanic(a.V)
			}
			if a.Act == "error" {
				return resp, errs[k]
			}
			return resp, err
		}
	}
	predict := func(q int) (r result) {
		for l, a := range pc.Reqs[q] {
			k := [2]int{q, l}
			switch {
			case a.Act == "before" || a.Act == "after" && (l == 0 || !r.panic):
				r = result{panic: true}
			case a.Act == "after":
			case l == 0 && a.Act == "error":
				r = result{err: errs[k]}
			case l == 0 && a.Act == "both":
				r = result{resp: responses[k], err: errs[k]}
			case l == 0 || a.Act == "answer":
				r = result{resp: responses[k]}
			case a.Act == "error" && !r.panic:
				r.err = errs[k]
			}
		}
		return
	}
	h = middleware.PanicRecover()(h)
	if pc.Twice {
		h = middleware.PanicRecover()(h)
	}
	var got result
	probe := func(ctx context.Context, mc path.MatchingContext) (resp response.HttpResponse, err error) {
		got = result{panic: true}
		resp, err = h(ctx, mc)
		got = result{resp: resp, err: err}
		return
	}
	var logged []error
	root := serveThrough(probe, func(e error) { logged = append(logged, e) })
	panicked := false
	for i := range pc.Reqs {
		cur = i
		for l := range pc.Reqs[i] {
			get([2]int{i, l})
		}
		want := predict(i)
		logged = nil
		rec := httptest.NewRecorder()
		func() {
			defer func() {
				if r := recover(); r != nil && !got.panic {
					panic(r)
				}
			}()
			r := newReq("GET", "/x")
			if pc.Gone>>(i%32)&1 == 1 {
				ctx, cancel := context.WithCancel(r.Context())
				cancel()
				r = r.WithContext(ctx)
			}
			root(rec, r)
		}()
		switch {
		case got.panic:
			return fmt.Errorf("request %d: the panic was not recovered", i)
		case want.panic:
			c.Class("panic")
			if panicked {
				c.NonTrivial()
			}
			panicked = true
			if got.err == nil {
				return fmt.Errorf("request %d: the handler panicked but the middleware returned no error", i)
			}
		case got.err != want.err:
			return fmt.Errorf("request %d: the error is %v, want %v", i, got.err, want.err)
		case got.resp != want.resp:
			return fmt.Errorf("request %d: the response is not the one of the handler", i)
		default:
			if panicked {
				c.NonTrivial()
				c.Class("request after a panic")
			}
		}
		if want.panic || want.err != nil {
			if rec.Code != 500 || len(logged) != 1 {
				return fmt.Errorf("request %d: the status is %d and %d errors were logged, want 500 and one error", i, rec.Code, len(logged))
			}
		} else if rec.Code != want.resp.StatusCode() || len(logged) != 0 {
			return fmt.Errorf("request %d: the status is %d, want %d (errors %v)", i, rec.Code, want.resp.StatusCode(), logged)
		}
	}
	return nil
}

func genPanic(t *rapid.T) panicCase {
	pc := panicCase{Layers: several(t, 0, 3, 20, "layers"), Twice: rapid.IntRange(0, 4).Draw(t, "twice") == 4}
	if rapid.IntRange(0, 2).Draw(t, "gone") == 2 {
		pc.Gone = rapid.Uint32().Draw(t, "which")
	}
	for n := several(t, 1, 4, 30, "n"); n > 0; n-- {
		var as []panicAct
		for l := 0; l <= pc.Layers; l++ {
			a := panicAct{Act: rapid.SampledFrom([]string{"pass", "pass", "before", "after", "error", "answer", "both"}).Draw(t, "act")}
			if a.Act == "before" || a.Act == "after" {
				a.V = rapid.IntRange(0, panicValues-1).Draw(t, "value")
			}
			as = append(as, a)
		}
		pc.Reqs = append(pc.Reqs, as)
	}
	return pc
}

// ---- C25: errors to statuses ----

type errAct struct {
	Kind int      `json:"kind"`
	Msg  Str      `json:"msg"`
	Resp *anyResp `json:"resp,omitempty"` // no error
	Both bool     `json:"both,omitempty"` // the error comes with a response
	Std  int      `json:"std,omitempty"`  // which of stdErrors
	Done int      `json:"done,omitempty"` // the request's context: 1 canceled, 2 past its deadline, 3 canceled by the handler
}

type errCase struct {
	Supplier bool     `json:"supplier,omitempty"`
	Acts     []errAct `json:"acts"`
}

type ownError struct{ msg string }

func (o *ownError) Error() string { return o.msg }

var errKinds = []string{"bad request", "bad request of an error", "not found", "not found of an error", "unauthorized", "wrong credentials", "access denied", "other", "wrapped", "own type", "same text as access denied", "bad request of not found", "of the standard library"}

// stdErrors are errors that handlers pass on, none of which is one of gofre's.
var stdErrors = []error{context.Canceled, context.DeadlineExceeded, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrNotExist, os.ErrPermission,
	os.ErrDeadlineExceeded, net.ErrClosed, http.ErrAbortHandler, http.ErrNotSupported, http.ErrNoCookie, http.ErrNoLocation, http.ErrMissingFile, http.ErrServerClosed,
	http.ErrHandlerTimeout, http.ErrBodyNotAllowed, http.ErrContentLength, &http.MaxBytesError{Limit: 10}, http.ErrNotMultipart, syscall.EPIPE, syscall.ECONNRESET, syscall.ENOSPC,
	&net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}, &net.DNSError{Err: "no such host", Name: "x", IsNotFound: true, IsTimeout: true},
	&url.Error{Op: "Get", URL: "http://x/", Err: context.DeadlineExceeded}, &json.SyntaxError{Offset: 3}, &strconv.NumError{Func: "Atoi", Num: "x", Err: strconv.ErrSyntax},
	&os.PathError{Op: "open", Path: "/x", Err: syscall.ENOENT}, errors.ErrUnsupported, codedErr{404}, codedErr{400}, codedErr{401}}

// codedErr names a status of its own, as errors of other libraries do.
type codedErr struct{ code int }

func (e codedErr) Error() string   { return fmt.Sprint("status ", e.code) }
func (e codedErr) StatusCode() int { return e.code }
func (e codedErr) Status() int     { return e.code }
func (e codedErr) Code() int       { return e.code }
func (e codedErr) Temporary() bool { return true }
func (e codedErr) Timeout() bool   { return true }
func (e codedErr) NotFound() bool  { return e.code == 404 }

func (a errAct) real() (error, int) {
	m := string(a.Msg)
	switch a.Kind {
	case 0:
		return gerr.NewBadRequestWithMessage(m), 400
	case 1:
		return gerr.NewBadRequest(errors.New(m)), 400
	case 2:
		return gerr.NewObjectNotFoundWithMessage(m), 404
	case 3:
		return gerr.NewObjectNotFound(fmt.Errorf("%w", &ownError{m})), 404
	case 4:
		return gerr.ErrUnauthorizedRequest, 401
	case 5:
		return gerr.ErrWrongCredentials, 403
	case 6:
		return gerr.ErrAccessDenied, 403
	case 7:
		return errors.New(m), 500
	case 8:
		return fmt.Errorf("%s: %w", m, io.ErrUnexpectedEOF), 500
	case 9:
		return &ownError{m}, 500
	case 10:
		return errors.New(gerr.ErrAccessDenied.Error()), 500
	case 12:
		return stdErrors[a.Std%len(stdErrors)], 500
	}
	return gerr.NewBadRequest(gerr.NewObjectNotFoundWithMessage(m)), 400
}

func runErrors(c *Ctx, ec errCase) error {
	var cur errAct
	var curErr error
	var curResp response.HttpResponse
	type call struct {
		status int
		err    error
	}
	var calls []call
	var supplied response.HttpResponse
	mid := middleware.ErrJsonResponse()
	if ec.Supplier {
		mid = middleware.ErrResponse(func(status int, err error) response.HttpResponse {
			calls = append(calls, call{status, err})
			supplied = response.PlainTextHttpResponse(status, "supplied")
			return supplied
		})
	}
	var gotResp response.HttpResponse
	var gotErr error
	var cancel context.CancelFunc
	h := mid(func(context.Context, path.MatchingContext) (response.HttpResponse, error) {
		if cur.Done == 3 {
			cancel()
		}
		if cur.Resp != nil {
			return curResp, nil
		}
		if cur.Both {
			return response.PlainTextHttpResponseOK("not to be sent"), curErr
		}
		return nil, curErr
	})
	probe := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		gotResp, gotErr = h(ctx, mc)
		return gotResp, gotErr
	}
	for i, a := range ec.Acts {
		cur, calls, supplied = a, nil, nil
		var status int
		curErr, status = a.real()
		if a.Resp != nil {
			curResp = a.Resp.build()
		}
		r := newReq("GET", "/x")
		ctx := r.Context()
		if ctx, cancel = context.WithCancel(ctx); a.Done == 2 {
			ctx, cancel = context.WithDeadline(ctx, time.Now().Add(-time.Hour))
		}
		if a.Done == 1 {
			cancel()
		}
		got, logged := through(probe, nil, r.WithContext(ctx))
		cancel()
		if gotErr != nil {
			return fmt.Errorf("act %d: the middleware returned the error %v", i, gotErr)
		}
		if a.Resp != nil {
			if gotResp != curResp || len(calls) > 0 {
				return fmt.Errorf("act %d: the response of the handler was replaced", i)
			}
			continue
		}
		c.Class(errKinds[a.Kind])
		if len(logged) > 0 {
			return fmt.Errorf("act %d: %v went further", i, logged)
		}
		if len(a.Msg) > 0 {
			c.NonTrivial()
		}
		if got.Header.Get("X-Act") != "" {
			return fmt.Errorf("act %d: the response has a header that was added to the response to an earlier error", i)
		}
		gotResp.Headers().Set("X-Act", fmt.Sprint(i))
		if got.Status != status {
			return fmt.Errorf("act %d: the error %q (%s) gives %d, want %d", i, curErr, errKinds[a.Kind], got.Status, status)
		}
		if ec.Supplier {
			if len(calls) != 1 || calls[0].status != status || calls[0].err != curErr || gotResp != supplied {
				return fmt.Errorf("act %d: the supplier was called with %v, want %d, %v once", i, calls, status, curErr)
			}
			continue
		}
		var body map[string]any
		if err := json.Unmarshal([]byte(got.Body), &body); err != nil {
			return fmt.Errorf("act %d: the body %q is not JSON: %v", i, got.Body, err)
		}
		if text, _ := body["error"].(string); text != validText(curErr.Error()) {
			return fmt.Errorf("act %d: the body is %q, the error %q", i, got.Body, curErr)
		}
		if ct := got.Header.Get("Content-Type"); !strings.HasPrefix(ct, "application/json") {
			return fmt.Errorf("act %d: the content type is %q", i, ct)
		}
	}
	return nil
}

// validText is the text as JSON can carry it: every invalid byte replaced.
func validText(s string) string {
	var b strings.Builder
	for _, r := range s {
		b.WriteRune(r)
	}
	return b.String()
}

var messages = []string{"", "plain", "with \"quotes\" and \\", "line\nbreak\r\t", "<script>&amp;", "日本 ü", "\x00\x1b", "bad \xff utf-8", "\u2028", "%s %d %!v", "{\"error\":\"x\"}", "}", strings.Repeat("long ", 2000)}

func genErrors(t *rapid.T) errCase {
	ec := errCase{Supplier: rapid.IntRange(0, 2).Draw(t, "supplier") == 2}
	for n := several(t, 1, 3, 30, "n"); n > 0; n-- {
		a := errAct{Kind: rapid.IntRange(0, len(errKinds)-1).Draw(t, "kind")}
		if a.Kind == 12 {
			a.Std = rapid.IntRange(0, len(stdErrors)-1).Draw(t, "std")
		}
		if rapid.IntRange(0, 4).Draw(t, "free") == 4 {
			a.Msg = Str(rapid.String().Draw(t, "text"))
		} else {
			a.Msg = Str(rapid.SampledFrom(messages).Draw(t, "msg"))
		}
		if rapid.IntRange(0, 5).Draw(t, "ok") == 5 {
			r := genAnyResp(t)
			a.Resp = &r
		} else {
			a.Both = rapid.IntRange(0, 3).Draw(t, "both") == 3
		}
		if rapid.IntRange(0, 2).Draw(t, "done") == 2 {
			a.Done = rapid.IntRange(1, 3).Draw(t, "how")
		}
		ec.Acts = append(ec.Acts, a)
	}
	return ec
}

// ---- C26: dumper ----

type dumpCase struct {
	Reqs []dumpReq `json:"reqs"`
}

type dumpReq struct {
	Method  string  `json:"method"`
	Target  string  `json:"target"`
	Host    string  `json:"host"`
	Headers []kv    `json:"headers,omitempty"`
	Cookie  Str     `json:"cookie,omitempty"`
	Body    Str     `json:"body,omitempty"`
	Chunked bool    `json:"chunked,omitempty"`
	Form    bool    `json:"form,omitempty"`   // the form was parsed before
	Secure  int     `json:"secure,omitempty"` // as secReq
	Err     bool    `json:"err,omitempty"`
	Reads   string  `json:"reads,omitempty"` // body or form: what the handler reads
	Took    int     `json:"took,omitempty"`  // for how many milliseconds the handler runs
	Edits   bool    `json:"edits,omitempty"` // the handler changes the request's headers and form
	Resp    anyResp `json:"resp"`
}

func (d dumpReq) request() *http.Request {
	u, _ := url.ParseRequestURI(d.Target)
	r := newReq(d.Method, u.Path)
	r.URL, r.RequestURI, r.Host = u, d.Target, d.Host
	for _, x := range d.Headers {
		r.Header.Add(x.K, string(x.V))
	}
	if d.Cookie != "" {
		r.Header.Set("Cookie", string(d.Cookie))
	}
	if d.Body != "" {
		r.Body, r.ContentLength = io.NopCloser(strings.NewReader(string(d.Body))), int64(len(d.Body))
		r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	}
	if d.Chunked {
		r.TransferEncoding, r.ContentLength = []string{"chunked"}, -1
	}
	if d.Form {
		_ = r.ParseForm()
	}
	secureRequest(r, d.Secure)
	return r
}

// snapshot tells what a handler sees of its request.
func snapshot(r *http.Request, reads string) string {
	s := fmt.Sprintf("%s %s %q %q %v %v %q %d", r.Method, r.RequestURI, r.URL, r.Host, r.Header, r.TLS != nil, r.Form, r.ContentLength)
	switch reads {
	case "body":
		b, err := io.ReadAll(r.Body)
		s += fmt.Sprintf(" body %q %v", b, err)
	case "form":
		s += fmt.Sprintf(" value %q", r.FormValue("q"))
	}
	return s
}

func runDump(c *Ctx, dc dumpCase) error {
	reqs := dc.Reqs
	var entries []string
	dumper := middleware.RequestDumper(func(s string) { entries = append(entries, strings.Clone(s)) })
	var cur dumpReq
	var saw string
	inner := func(_ context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		saw = snapshot(mc.R, cur.Reads)
		if cur.Took > 0 {
			time.Sleep(time.Duration(cur.Took) * time.Millisecond)
		}
		if cur.Edits {
			mc.R.Header.Set("X-From-Handler", "1")
			mc.R.Header.Add("X-Multi", "more")
			mc.R.Header.Del("Authorization")
			if mc.R.Form != nil {
				mc.R.Form.Set("q", "changed")
			}
			mc.R.Host, mc.R.Method = "changed.test", "CHANGED"
		}
		if cur.Err {
			return nil, errSource
		}
		return cur.Resp.build(), nil
	}
	dumped := dumper(inner)
	for i, q := range reqs {
		cur, entries = q, nil
		if q.Err {
			resp, err := dumped(context.Background(), path.MatchingContext{R: q.request()})
			if err != errSource || resp != nil || len(entries) > 0 {
				return fmt.Errorf("request %d: the error became %v, %v with the entries %q", i, resp, err, entries)
			}
			c.Class("error")
			continue
		}
		got, e1 := through(dumped, nil, q.request())
		seen := saw
		bare, e2 := through(inner, nil, q.request())
		if seen != saw {
			return fmt.Errorf("request %d: the handler sees %s, without the dumper %s", i, seen, saw)
		}
		if len(e1) != len(e2) {
			return fmt.Errorf("request %d: errors %v, without the dumper %v", i, e1, e2)
		}
		if err := sameResponse(got, bare); err != nil {
			return fmt.Errorf("request %d: %w", i, err)
		}
		if len(entries) != 1 {
			return fmt.Errorf("request %d: %d log entries %q", i, len(entries), entries)
		}
		if err := checkDump(q, entries[0]); err != nil {
			return fmt.Errorf("request %d: %w; the entry is %s", i, err, clip(entries[0], 1500))
		}
		c.Class(q.Resp.name())
		if len(q.Headers) > 0 && len(q.Resp.set()) > 0 {
			c.NonTrivial()
		}
	}
	return nil
}

// field finds a member of an object by its name in any letter case.
func field(m map[string]any, name string) any {
	if v, ok := m[name]; ok {
		return v
	}
	for k, v := range m {
		if strings.EqualFold(k, name) {
			return v
		}
	}
	return nil
}

func asList(v any) []any {
	l, _ := v.([]any)
	return l
}

func sameTexts(what string, shown any, want map[string][]string) error {
	got, _ := shown.(map[string]any)
	if len(got) != len(want) {
		return fmt.Errorf("the %s of the request are %v, want %v", what, got, want)
	}
	for k, v := range want {
		vs, _ := got[validText(k)].([]any)
		if len(vs) != len(v) {
			return fmt.Errorf("the %s of the request are %v, want %v", what, got, want)
		}
		for i := range v {
			if s, _ := vs[i].(string); s != validText(v[i]) {
				return fmt.Errorf("the %s of the request are %v, want %v", what, got, want)
			}
		}
	}
	return nil
}

func checkDump(q dumpReq, entry string) error {
	var top map[string]any
	if err := json.Unmarshal([]byte(entry), &top); err != nil {
		return fmt.Errorf("the entry is not valid JSON: %v", err)
	}
	req, _ := top["request"].(map[string]any)
	resp, _ := top["response"].(map[string]any)
	r := q.request()
	for k, want := range map[string]string{"method": r.Method, "requestURI": r.RequestURI, "host": r.Host, "url": r.URL.String(), "protocolVersion": r.Proto, "remoteAddress": r.RemoteAddr} {
		if got, _ := field(req, k).(string); got != validText(want) {
			return fmt.Errorf("the %s of the request is %q, want %q", k, got, want)
		}
	}
	if got, ok := field(req, "contentLength").(float64); !ok || int64(got) != r.ContentLength {
		return fmt.Errorf("the content length of the request is %v, want %d", field(req, "contentLength"), r.ContentLength)
	}
	if got, ok := field(req, "isSecure").(bool); !ok || got != (r.TLS != nil) {
		return fmt.Errorf("the request is shown as secure: %v, want %v", field(req, "isSecure"), r.TLS != nil)
	}
	var enc []string
	for _, x := range asList(field(req, "transferEncoding")) {
		enc = append(enc, fmt.Sprint(x))
	}
	if !reflect.DeepEqual(enc, r.TransferEncoding) {
		return fmt.Errorf("the transfer encoding of the request is %q, want %q", enc, r.TransferEncoding)
	}
	var at [2]float64
	for i, k := range []string{"startTimeMs", "endTimeMs"} {
		at[i], _ = field(top, k).(float64)
		if now := float64(time.Now().UnixMilli()); math.Abs(at[i]-now) > 3600_000 {
			return fmt.Errorf("%s is %.0f, now is %.0f", k, at[i], now)
		}
	}
	if q.Took > 0 && at[1]-at[0] < float64(q.Took-2) {
		return fmt.Errorf("the handler ran for %d ms, but the times are %.0f and %.0f", q.Took, at[0], at[1])
	}
	if q.Form {
		if err := sameTexts("form fields", field(req, "formFields"), r.Form); err != nil {
			return err
		}
	}
	var jar []any
	for _, ck := range r.Cookies() {
		jar = append(jar, validText(ck.String()))
	}
	if got, _ := field(req, "cookies").([]any); !reflect.DeepEqual(got, jar) && len(got)+len(jar) > 0 {
		return fmt.Errorf("the cookies of the request are %q, want %q", got, jar)
	}
	if err := sameTexts("headers", field(req, "header"), r.Header); err != nil {
		return err
	}
	if q.Resp.Alt != "adapted" { // its status is known only to the adapted handler
		want := 303
		if q.Resp.Spec != nil {
			want = q.Resp.Spec.wantStatus()
		}
		if got, _ := field(resp, "statusCode").(float64); int(got) != want {
			return fmt.Errorf("the status of the response is %v, want %d", got, want)
		}
	}
	shown, _ := field(resp, "header").(map[string]any)
	got := map[string]string{}
	for k, v := range shown {
		if vs, ok := v.([]any); ok && len(vs) == 1 {
			v = vs[0]
		}
		s, _ := v.(string)
		got[http.CanonicalHeaderKey(k)] = s
	}
	for k, want := range q.Resp.set() {
		if v, ok := got[k]; !ok || v != validText(want) {
			return fmt.Errorf("the header %s of the response is %q, want %q", k, v, want)
		}
	}
	cs, _ := field(resp, "cookies").([]any)
	lines := []string{}
	for _, x := range cs {
		s, _ := x.(string)
		lines = append(lines, s)
	}
	sort.Strings(lines)
	if want := q.Resp.cookies(); !reflect.DeepEqual(lines, append([]string{}, want...)) {
		return fmt.Errorf("the cookies of the response are %q, want %q", lines, want)
	}
	return nil
}

func genDump(t *rapid.T) dumpCase {
	var out []dumpReq
	for n := several(t, 1, 3, 30, "n"); n > 0; n-- {
		q := dumpReq{Method: rapid.SampledFrom([]string{"GET", "POST", "PUT", "HEAD", "OPTIONS"}).Draw(t, "method"),
			Target: rapid.SampledFrom([]string{"/", "/a/b", "/a?q=1&r=%22<>", "/%e4%b8%ad?x=\xff", "/p%2Fq", "http://abs.test/x?y"}).Draw(t, "target"),
			Host:   rapid.SampledFrom([]string{"example.test", "example.test:8080", "[::1]:80", ""}).Draw(t, "host"),
			Secure: rapid.IntRange(0, 1).Draw(t, "secure"), Err: rapid.IntRange(0, 5).Draw(t, "err") == 5, Resp: genAnyResp(t)}
		for k := several(t, 0, 3, 40, "nh"); k > 0; k-- {
			q.Headers = append(q.Headers, kv{rapid.SampledFrom([]string{"Accept", "X-Multi", "X-Odd", "Origin", "Authorization"}).Draw(t, "k"),
				Str(rapid.SampledFrom([]string{"", "a", "b, c", "\"q\" <&>", "\xff\xfe", "日本", "\u2028"}).Draw(t, "v"))})
		}
		if rapid.IntRange(0, 149).Draw(t, "slow") == 149 {
			q.Took = 8
		}
		q.Edits = rapid.IntRange(0, 3).Draw(t, "edits") == 3
		if rapid.Bool().Draw(t, "hascookie") {
			q.Cookie = Str(rapid.SampledFrom([]string{"a=1", "a=1; b=2; a=3", "broken", "x=\"quoted\"", "=;;", "k=\xff"}).Draw(t, "cookie"))
		}
		if q.Method == "POST" || q.Method == "PUT" {
			q.Body = Str(rapid.SampledFrom([]string{"", "q=1", "q=a%20b&q=c", "%zz", "raw body"}).Draw(t, "body"))
			q.Form = rapid.IntRange(0, 3).Draw(t, "form") == 3
			q.Chunked = rapid.IntRange(0, 3).Draw(t, "chunked") == 3
			q.Reads = rapid.SampledFrom([]string{"body", "form", ""}).Draw(t, "reads")
		}
		out = append(out, q)
	}
	return dumpCase{out}
}

func init() {
	register("C23", "Configurations with every feature on or off (max-age 0 to 2^31, all frame options with and without an explicit value), one middleware shared by 1-3 handlers and 1-5 requests, plain or secure by TLS or URL scheme, whose handler fails or gives one of eleven response types, some with security headers of their own; the same response without the middleware is the reference. Non-trivial: secure and plain responses that get headers.",
		6000, 120000, genSecurity, runSecurity)
	register("C24", "0-3 middlewares and a handler below PanicRecover (once or twice), 1-4 requests; each of them passes, answers, returns an error, or panics before or after the next one with one of fourteen values (nil, runtime errors, http.ErrAbortHandler, values whose Error panics, panics while panicking). Non-trivial: a request after one that panicked.",
		20000, 400000, genPanic, runPanic)
	register("C25", "1-3 errors of twelve kinds with any message (quotes, control characters, invalid UTF-8, 10000 characters), or responses of eleven types, or both, behind ErrJsonResponse or ErrResponse, sent through a router, the context of the request live, canceled before or by the handler, or past its deadline. Non-trivial: the error has a message.",
		20000, 400000, genErrors, runErrors)
	register("C26", "1-3 requests of five methods with odd targets, hosts, headers, cookies and form bodies, parsed before or not, whose handler reads the body or the form or not, sometimes takes 8 ms, and answers with one of eleven response types or fails; the same request without the dumper is the reference. Non-trivial: the request and the response both have headers.",
		8000, 160000, genDump, runDump)
}
