package main

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/cache"
	gerr "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"pgregory.net/rapid"
)

// ---- C43: stacks of middlewares around every response type ----

type stackCase struct {
	Stack  []string    `json:"stack"`  // outermost first
	Common int         `json:"common"` // so many of them are common middlewares of the mux
	Cors   corsConf    `json:"cors"`
	Sec    secCase     `json:"sec"`
	Req    corsReq     `json:"req"`
	Secure int         `json:"secure"`
	Level  int         `json:"level"`
	Accept *string     `json:"accept"`
	Resp   anyResp     `json:"resp"` // Alt may also be sse or hijack
	Events []eventSpec `json:"events,omitempty"`
	Raw    string      `json:"raw,omitempty"`
	Server bool        `json:"server"`
}

var corsNames = []string{"Access-Control-Allow-Origin", "Access-Control-Allow-Credentials", "Access-Control-Expose-Headers", "Access-Control-Max-Age", "Access-Control-Allow-Methods", "Access-Control-Allow-Headers", "Vary"}

var stackPerm = auth.Permission{Scope: "/a/b", Access: auth.AccessRead | auth.AccessUpdate}

func stackUser() *auth.User {
	return &auth.User{Id: "u", Groups: []auth.Group{{Name: "g", Roles: []auth.Role{{Name: "r", AllowedPermissions: []auth.Permission{{Scope: "/a/*", Access: auth.AccessAll()}}}}}}}
}

func (s stackCase) middlewares(dump func(string)) []middleware.Middleware {
	var ms []middleware.Middleware
	for _, n := range s.Stack {
		switch n {
		case "panic":
			ms = append(ms, middleware.PanicRecover())
		case "errors":
			ms = append(ms, middleware.ErrJsonResponse())
		case "cors":
			ms = append(ms, middleware.Cors(s.Cors.real()))
		case "security":
			ms = append(ms, middleware.SecurityHeaders(s.Sec.real()))
		case "compress":
			ms = append(ms, middleware.CompressResponse(s.Level))
		case "dump":
			ms = append(ms, middleware.RequestDumper(dump))
		case "csrf":
			nonces := cache.NewInMemory()
			_ = nonces.Add("stack-nonce", time.Hour)
			ms = append(ms, middleware.CSRFPrevention(nonces))
		case "own":
			ms = append(ms, ownLayer)
		case "authz":
			ms = append(ms, middleware.SecurityPrincipalSupplier(func(context.Context, path.MatchingContext) (auth.SecurityPrincipal, error) { return stackUser(), nil }),
				middleware.AuthorizeAll(stackPerm))
		}
	}
	return ms
}

// ownLayer is a middleware of the application, which adds to every response, one without headers included.
func ownLayer(next handler.Handler) handler.Handler {
	return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		resp, err := next(ctx, mc)
		if resp != nil {
			resp.Headers().Set("X-Own-Layer", "1")
			resp.Cookies().Add(&http.Cookie{Name: "own-layer", Value: "1"}, nil)
		}
		return resp, err
	}
}

func (s stackCase) has(n string) bool {
	for _, x := range s.Stack {
		if x == n {
			return true
		}
	}
	return false
}

func (s stackCase) answer() response.HttpResponse {
	switch s.Resp.Alt {
	case "sse":
		var h response.HttpHeaders
		if len(s.Resp.Headers) > 0 {
			h = response.NewHttpHeaders()
			for _, x := range s.Resp.Headers {
				h.Set(x.K, string(x.V))
			}
		}
		r := response.SSEHttpResponseWithHeaders(func(ctx context.Context, last string) <-chan response.ServerSentEvent {
			ch := make(chan response.ServerSentEvent, len(s.Events))
			for _, e := range s.Events {
				ch <- e.real()
			}
			close(ch)
			return ch
		}, h)
		for _, x := range s.Resp.Cookies {
			r.Cookies().Add(x.real())
		}
		return r
	case "hijack":
		return response.NewHttpHijackConnectionResponse(func(c net.Conn, rw *bufio.ReadWriter, err error) {
			if err != nil {
				return
			}
			_, _ = rw.WriteString(s.Raw)
			_ = rw.Flush()
			_ = c.Close()
		})
	}
	return s.Resp.build()
}

func (s stackCase) exchange(ms []middleware.Middleware) (got sent, logged []error, err error) {
	m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(e error) { logged = append(logged, e) }})
	if err != nil {
		return
	}
	k := min(s.Common, len(ms))
	m.CommonMiddlewares(ms[:k]...)
	m.HandleRequest(s.Req.Method, "/res", func(context.Context, path.MatchingContext) (response.HttpResponse, error) { return s.answer(), nil }, ms[k:]...)
	r := s.Req.real()
	if s.Resp.Alt == "sse" {
		r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/2.0", 2, 0
	}
	secureRequest(r, s.Secure)
	r.Header["Accept-Encoding"] = nil
	if s.Accept != nil {
		r.Header.Set("Accept-Encoding", *s.Accept)
	}
	r.Header.Set(middleware.CSRFRestNonceHeaderName, "stack-nonce")
	if s.Server {
		got, err = realServer().do(m.ServeHTTP, r.Method, "/res", r.Header)
		return
	}
	rec := httptest.NewRecorder()
	m.ServeHTTP(rec, r)
	return recorded(rec, nil), logged, nil
}

func runStack(c *Ctx, s stackCase) error {
	var entries []string
	got, e1, err := s.exchange(s.middlewares(func(e string) { entries = append(entries, e) }))
	if err != nil {
		return fmt.Errorf("%v around %s: the request failed: %v", s.Stack, s.name(), err)
	}
	var own []middleware.Middleware
	if s.has("own") && s.Resp.Alt != "hijack" {
		own = append(own, ownLayer)
	}
	bare, e2, err := s.exchange(own)
	if err != nil {
		return fmt.Errorf("harness error: the request without middlewares failed: %v", err)
	}
	fail := func(f string, a ...any) error {
		return fmt.Errorf("%v around %s: %w", s.Stack, s.name(), fmt.Errorf(f, a...))
	}
	// an adapted handler keeps to itself that its body could not be sent
	if len(e1) != len(e2) && s.Resp.Alt != "adapted" {
		return fail("errors %v, without middlewares %v", e1, e2)
	}
	if s.has("dump") && (len(entries) != 1 || !json.Valid([]byte(entries[0]))) {
		return fail("the log entries are %q", entries)
	}
	ignore := []string{"Connection", "Content-Length", "Transfer-Encoding"}
	if s.has("compress") {
		enc := got.Header.Get("Content-Encoding")
		if enc != bare.Header.Get("Content-Encoding") {
			if !(s.Server && s.Req.Method == "HEAD") {
				if got.Body, err = decode(enc, got.Body); err != nil {
					return fail("the body cannot be decoded: %v", err)
				}
			}
			c.Class("encoded")
		}
		ignore = append(ignore, "Content-Encoding")
		if !s.Server && s.Resp.Spec != nil && s.Resp.Spec.CT == "" {
			ignore = append(ignore, "Content-Type") // a recorder detects it in another way than a server
		}
	}
	secure := s.Secure >= 1 && s.Secure <= 3 && !s.Server
	if s.Resp.Alt != "hijack" {
		if s.has("cors") {
			var vary *string
			if v, ok := s.Resp.set()["Vary"]; ok {
				vary = &v
			}
			if err := s.Cors.checkHeaders(s.Req, got.Header, vary); err != nil {
				return fail("%w", err)
			}
			ignore = append(ignore, corsNames...)
		}
		if s.has("security") {
			if err := checkSec(got.Header, bare.Header, s.Sec.wantSec(secure)); err != nil {
				return fail("%w", err)
			}
			ignore = append(ignore, secNames...)
		}
	}
	if err := sameResponse(got, bare, ignore...); err != nil {
		return fail("%w", err)
	}
	if own != nil && len(e2) == 0 {
		n := 0
		for _, v := range got.Header["Set-Cookie"] {
			if v == "own-layer=1" {
				n++
			}
		}
		if v := got.Header["X-Own-Layer"]; len(v) != 1 || v[0] != "1" || n != 1 {
			return fail("what the own middleware added was sent as the header %q and %d cookies", v, n)
		}
		c.Class("own middleware")
	}
	if len(s.Stack) > 1 {
		c.NonTrivial()
	}
	c.Class(s.name())
	return nil
}

func (s stackCase) name() string {
	return s.Resp.name()
}

func genStack(t *rapid.T) stackCase {
	s := stackCase{Common: rapid.IntRange(0, 5).Draw(t, "common"), Sec: genSecurityConf(t), Level: rapid.IntRange(-1, 9).Draw(t, "level"),
		Secure: rapid.IntRange(0, 4).Draw(t, "secure"), Server: rapid.IntRange(0, 2).Draw(t, "server") == 2}
	for _, n := range rapid.Permutation([]string{"panic", "errors", "cors", "security", "compress", "dump", "csrf", "authz", "own"}).Draw(t, "order") {
		if rapid.Bool().Draw(t, n) {
			s.Stack = append(s.Stack, n)
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "accepts") > 0 {
		v := rapid.SampledFrom([]string{"gzip", "deflate", "gzip, deflate", "br"}).Draw(t, "accept")
		s.Accept = &v
	}
	switch rapid.IntRange(0, 7).Draw(t, "type") {
	case 6:
		s.Resp = anyResp{Alt: "sse", Cookies: genCookies(t, 2)}
		for _, x := range genHeaders(t, 2) {
			if !strings.EqualFold(x.K, "Content-Type") && x.K != "Cache-Control" {
				s.Resp.Headers = append(s.Resp.Headers, x)
			}
		}
		for n := several(t, 0, 3, 60, "nevents"); n > 0; n-- {
			s.Events = append(s.Events, genEvent(t))
		}
		s.Server = false
	case 7:
		body := rapid.SampledFrom([]string{"", "hello", strings.Repeat("raw bytes ", 1000)}).Draw(t, "raw")
		s.Resp, s.Server = anyResp{Alt: "hijack"}, true
		s.Raw = fmt.Sprintf("HTTP/1.1 299 Own\r\nConnection: close\r\nX-Raw: 1\r\nContent-Length: %d\r\n\r\n%s", len(body), body)
	default:
		s.Resp = genAnyResp(t)
		s.Server = s.Server || s.Resp.Alt == "adapted" // a recorder detects content types in another way than a server
		var ops []wOp
		for _, o := range s.Resp.Ops {
			if o.K != "Vary" {
				ops = append(ops, o)
			}
		}
		s.Resp.Ops = ops
	}
	// a request that the CORS middleware admits
	s.Cors = corsConf{Any: rapid.Bool().Draw(t, "any"), Creds: rapid.Bool().Draw(t, "creds"), MaxAge: rapid.SampledFrom([]int{0, 600}).Draw(t, "maxage"),
		Methods: []string{"GET", "HEAD", "POST", "PUT", "OPTIONS"}, Origins: []string{"https://app.test"}}
	if rapid.Bool().Draw(t, "expose") {
		s.Cors.Expose, s.Cors.Headers = []string{"X-A", "ETag"}, []string{"X-B"}
	}
	s.Req = corsReq{Method: rapid.SampledFrom([]string{"GET", "GET", "POST", "PUT", "OPTIONS", "HEAD"}).Draw(t, "method"), Host: "example.test"}
	if s.Resp.Alt == "hijack" && s.Req.Method == "HEAD" {
		s.Req.Method = "GET"
	}
	str := func(v string) *string { return &v }
	if rapid.Bool().Draw(t, "origin") {
		s.Req.Origin = str("https://app.test")
		if s.Req.Method == "OPTIONS" {
			s.Req.ACRM = str("PUT")
		}
	}
	if s.Req.Method == "POST" {
		s.Req.CType = str("text/plain")
	}
	return s
}

func genSecurityConf(t *rapid.T) secCase {
	return secCase{STS: rapid.Bool().Draw(t, "sts"), CJ: rapid.Bool().Draw(t, "cj"), Sniff: rapid.Bool().Draw(t, "sniff"), XSS: rapid.Bool().Draw(t, "xss"),
		MaxAge: 100, Option: rapid.IntRange(0, 2).Draw(t, "option")}
}

// ---- C13: concurrent requests ----

type concRoute struct {
	Kind    int    `json:"kind"`    // response kind, or one of the outcomes below
	Pattern int    `json:"pattern"` // index into concPatterns
	Stack   uint32 `json:"stack"`
	Size    int    `json:"size"`
	Inner   bool   `json:"inner"` // errors are answered by the innermost middleware
	Tag     bool   `json:"tag"`   // the outermost middleware adds a header of the request
}

const (
	crAdapted = rkCount + iota
	crRedirect
	crError
	crBadRequest
	crPanic
	crAssets
	crEvents
	crDenied
	crUnauthorized
	crKinds
)

var concPatterns = []string{"/v/{a}/x/{b}", "/v/{a}/y/{b:^[0-9]+$}/{c}", "/g/{a}/**", "/t/T*", "/plain", "/{a}/z", "/**"}

type concReq struct {
	R int `json:"r"`
	P int `json:"p"` // the form of the path
	G int `json:"g"`
}

type concCase struct {
	Routes []concRoute `json:"routes"`
	Reqs   []concReq   `json:"reqs"`
	Spin   int         `json:"spin"`
	Repeat int         `json:"repeat"`
	Case   bool        `json:"case"` // case-insensitive matching
}

func (cc concCase) path(i int) string {
	q := cc.Reqs[i]
	tok := fmt.Sprintf("Tok%dx", i)
	switch q.P {
	case 0:
		return "/v/" + tok + "/x/" + tok + "b"
	case 1:
		return "/v/" + tok + "/y/" + fmt.Sprint(1000+i) + "/" + tok
	case 2:
		return "/g/" + tok + strings.Repeat("/"+tok, q.R%5)
	case 3:
		return "/t/" + tok
	case 4:
		return "/plain"
	case 5:
		return "/" + tok + "/z"
	case 6:
		return "/none" + strings.Repeat("/"+tok, 3+q.R*5)
	}
	return "/V/" + tok + "/./x//" + tok + "b"
}

// mux builds the mux of the case; dumps counts the dumper's entries.
func (cc concCase) mux(dumps *sync.Map) (*gofre.MuxHandler, error) {
	m, err := gofre.NewMuxHandler(&gofre.Config{CaseInsensitivePathMatch: cc.Case, ErrLogFunc: func(error) {}})
	if err != nil {
		return nil, err
	}
	shared := []middleware.Middleware{
		middleware.PanicRecover(),
		middleware.ErrJsonResponse(),
		middleware.Cors(middleware.CorsConfig{AllowedOrigins: []string{"https://app.test", "https://two.test"}, AllowedHttpMethods: []string{"GET"}, ExposedHeaders: []string{"X-A"}, SupportsCredentials: true}),
		middleware.SecurityHeaders(middleware.SecurityHeadersConfig{STS: middleware.ShStrictTransportSecurityConfig{Enabled: true, MaxAgeSeconds: 5, Preload: true},
			ClickJacking: middleware.ShClickJackingConfig{Enabled: true, XFrameOption: middleware.XFrameOptionSameOrigin}, XSSProtectionEnabled: true}),
		middleware.CompressResponse(6),
		middleware.RequestDumper(func(s string) { dumps.Store(s, true) }),
		middleware.CSRFPrevention(cache.NewInMemory()),
		middleware.SecurityPrincipalSupplier(func(_ context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) {
			if strings.HasSuffix(mc.R.Header.Get("X-Who"), "7") {
				return nil, nil
			}
			u := stackUser()
			u.Id = mc.R.Header.Get("X-Who")
			return u, nil
		}),
		middleware.AuthorizeAny(auth.Permission{Scope: "/other", Access: auth.AccessRead}, stackPerm),
	}
	tag := func(next handler.Handler) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			resp, err := next(ctx, mc)
			if err == nil && resp != nil {
				resp.Headers().Set("X-For-"+mc.R.Header.Get("X-Who"), "1")
			}
			return resp, err
		}
	}
	for ri, r := range cc.Routes {
		var ms []middleware.Middleware
		if r.Tag {
			ms = append(ms, tag)
		}
		for i, mw := range shared {
			if r.Stack>>i&1 == 1 && !(r.Inner && i == 1) {
				ms = append(ms, mw)
			}
		}
		if r.Inner {
			ms = append(ms, shared[1])
		}
		m.HandleGet(concPatterns[r.Pattern], cc.handler(ri, r), ms...)
	}
	return m, nil
}

func (cc concCase) handler(ri int, r concRoute) handler.Handler {
	return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		vars := func() string { return fmt.Sprintf("a=%q b=%q c=%q", mc.PathVar("a"), mc.PathVar("b"), mc.PathVar("c")) }
		before := vars()
		for i := 0; i < cc.Spin; i++ {
			runtime.Gosched()
		}
		who := ""
		if p := auth.GetSecurityPrincipalFromContext(ctx); p != nil {
			who = p.Identity()
		}
		text := fmt.Sprintf("%d %s %s %s|", ri, mc.R.Header.Get("X-Who"), who, before) + strings.Repeat("fill", r.Size)
		s := respSpec{Kind: r.Kind, Status: 200 + ri, Body: Str(text), CT: "text/plain", Chunks: []int{7, 100},
			Headers: []kv{{"X-A", Str(before)}, {"Vary", "X-Who"}}, Late: []kv{{"X-Late", Str(mc.R.Header.Get("X-Who"))}},
			Cookies: []cookieSpec{{Name: "c", Value: mc.R.Header.Get("X-Who")}}, LateC: []cookieSpec{{Name: "d", Value: fmt.Sprint(ri)}}}
		if ri%2 == 1 {
			s.Headers, s.Cookies = nil, nil
		}
		if r.Kind == rkJSON {
			s.JSON = map[string]any{"text": text}
		}
		switch r.Kind {
		case crAdapted:
			a := response.HandlerFuncAdaptor(func(w http.ResponseWriter, req *http.Request) {
				w.Header().Set("X-Adapted", req.Header.Get("X-Who"))
				_, _ = io.WriteString(w, text+vars())
			})
			a.Headers().Set("X-Own", before)
			return a, nil
		case crRedirect:
			a := response.RedirectHttpResponse("/to/" + mc.R.Header.Get("X-Who"))
			a.Headers().Set("X-Own", before)
			return a, nil
		case crError:
			return nil, errors.New(text)
		case crBadRequest:
			return nil, gerr.NewBadRequestWithMessage(text)
		case crDenied:
			return nil, gerr.ErrAccessDenied
		case crUnauthorized:
			return nil, gerr.ErrUnauthorizedRequest
		case crPanic:
			panic(text)
		case crAssets:
			return response.StreamHttpResponse("text/plain", strings.NewReader(text+vars())), nil
		case crEvents:
			return response.SSEHttpResponseWithHeadersAndCookies(func(ctx context.Context, last string) <-chan response.ServerSentEvent {
				ch := make(chan response.ServerSentEvent)
				go func() {
					defer close(ch)
					for i := range 3 {
						select {
						case ch <- response.ServerSentEvent{Name: last, Id: fmt.Sprint(who, "-", i), Data: []string{before, text}}:
						case <-ctx.Done():
							return
						}
					}
				}()
				return ch
			}, response.HttpHeaders{"X-Own": before}, response.HttpCookies{}), nil
		}
		if v := vars(); v != before {
			s.Body, s.JSON = Str("the path variables changed from "+before+" to "+v), "changed"
		}
		return s.build(), nil
	}
}

func (cc concCase) request(i int) *http.Request {
	r := newReq("GET", cc.path(i))
	r.Header.Set("X-Who", fmt.Sprint("w", i))
	if i%3 > 0 {
		r.Header.Set("Accept-Encoding", []string{"gzip", "deflate"}[i%2])
	}
	if i%4 > 1 {
		r.Header.Set("Origin", []string{"https://app.test", "https://two.test", "https://evil.test"}[i%3])
	}
	if i%5 > 0 {
		r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/2.0", 2, 0
		r.Header.Set("Last-Event-Id", fmt.Sprint("last", i))
	}
	secureRequest(r, i%2)
	return r
}

// serve1 performs a request; a panic that the framework lets through is part of the outcome.
func (cc concCase) serve1(m http.Handler, i int) (s sent) {
	rec := httptest.NewRecorder()
	defer func() {
		if r := recover(); r != nil {
			s = sent{Status: -1, Header: http.Header{}, Body: fmt.Sprint(r)}
		}
	}()
	m.ServeHTTP(rec, cc.request(i))
	return recorded(rec, nil)
}

func runConc(c *Ctx, cc concCase) error {
	var d1, d2 sync.Map
	ref, err := cc.mux(&d1)
	if err != nil {
		return err
	}
	want := make([]sent, len(cc.Reqs))
	served := 0
	for i := range cc.Reqs {
		want[i] = cc.serve1(ref, i)
		if want[i].Status != 404 {
			served++
		}
	}
	m, err := cc.mux(&d2)
	if err != nil {
		return err
	}
	groups := map[int][]int{}
	for i, q := range cc.Reqs {
		groups[q.G] = append(groups[q.G], i)
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	var mu sync.Mutex
	var first error
	for _, g := range groups {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for n := 0; n < cc.Repeat; n++ {
				for _, i := range g {
					got := cc.serve1(m, i)
					if err := sameResponse(got, want[i]); err != nil {
						mu.Lock()
						if first == nil {
							first = fmt.Errorf("GET %s next to %d other requests: %w", cc.path(i), len(cc.Reqs)-1, err)
						}
						mu.Unlock()
						return
					}
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	d2.Range(func(text, _ any) bool {
		if err := cc.ofOneRequest(text.(string)); err != nil && first == nil {
			first = fmt.Errorf("the dump %s: %w", clip(text.(string), 1500), err)
		}
		c.Class("dumped")
		return first == nil
	})
	if len(groups) > 1 && served > 1 {
		c.NonTrivial()
	}
	c.ClassIf(served < len(cc.Reqs), "404 among them")
	for _, r := range cc.Routes {
		c.ClassIf(r.Kind == crPanic, "panics")
		c.ClassIf(r.Kind == crError || r.Kind == crBadRequest || r.Kind == crDenied || r.Kind == crUnauthorized, "errors")
		c.ClassIf(r.Stack>>4&1 == 1, "compression")
	}
	return first
}

// ofOneRequest tells whether everything in an entry of the dumper belongs to one request.
func (cc concCase) ofOneRequest(text string) error {
	var d struct {
		Request struct {
			URI    string      `json:"requestURI"`
			URL    string      `json:"url"`
			Header http.Header `json:"header"`
		} `json:"request"`
		Response struct {
			Header map[string]string `json:"header"`
		} `json:"response"`
	}
	if err := json.Unmarshal([]byte(text), &d); err != nil {
		return err
	}
	var i int
	who := d.Request.Header.Get("X-Who")
	if _, err := fmt.Sscanf(who, "w%d", &i); err != nil || i >= len(cc.Reqs) {
		return fmt.Errorf("the header X-Who is %q", who)
	}
	r := cc.request(i)
	if d.Request.URI != r.RequestURI || d.Request.URL != r.URL.String() || fmt.Sprint(d.Request.Header) != fmt.Sprint(r.Header) {
		return fmt.Errorf("the request is not that of %s", who)
	}
	if late, ok := d.Response.Header["X-Late"]; ok && late != who {
		return fmt.Errorf("the response to %s has the header of %s", who, late)
	}
	return nil
}

func genConc(t *rapid.T) concCase {
	cc := concCase{Spin: rapid.IntRange(0, 3).Draw(t, "spin"), Repeat: rapid.IntRange(1, 4).Draw(t, "repeat"), Case: rapid.Bool().Draw(t, "case")}
	for _, p := range rapid.Permutation([]int{0, 1, 2, 3, 4, 5, 6}).Draw(t, "patterns")[:rapid.IntRange(1, 6).Draw(t, "nroutes")] {
		cc.Routes = append(cc.Routes, concRoute{Kind: rapid.IntRange(0, crKinds-1).Draw(t, "kind"), Pattern: p, Stack: uint32(rapid.IntRange(0, 511).Draw(t, "stack")), Size: rapid.SampledFrom([]int{0, 1, 100, 3000}).Draw(t, "size"),
			Inner: rapid.IntRange(0, 3).Draw(t, "inner") == 0, Tag: rapid.Bool().Draw(t, "tag")})
	}
	gs := rapid.IntRange(2, 8).Draw(t, "goroutines")
	for n := several(t, 2, 24, 80, "nreqs"); n > 0; n-- {
		q := concReq{R: rapid.IntRange(0, 4).Draw(t, "r"), P: rapid.IntRange(0, 7).Draw(t, "p"), G: len(cc.Reqs) % gs}
		if len(cc.Routes) > 0 && rapid.IntRange(0, 2).Draw(t, "hit") > 0 {
			q.P = cc.Routes[rapid.IntRange(0, len(cc.Routes)-1).Draw(t, "route")].Pattern
		}
		cc.Reqs = append(cc.Reqs, q)
	}
	return cc
}

func init() {
	register("C43", "Stacks of 0-9 middlewares in any order, the provided ones and one of the application that adds a header and a cookie, as common or own middlewares of a mux, around one of thirteen response types (event streams and hijacked connections included), for admitted requests of five methods with and without Origin, Accept-Encoding and TLS, on a recorder or over TCP; the bare response is the reference. Non-trivial: at least two middlewares.",
		4000, 80000, genStack, runStack)
	register("C13", "1-6 routes whose handlers give one of seventeen outcomes (event streams and the errors that all requests share included) and hold path variables, cookies, headers and bodies of their request, behind any subset of nine shared middlewares, with the errors answered by an outer or the innermost one, and one that adds a header of the request to the response; 2-24 requests in 2-8 goroutines, each repeated 1-4 times on a fresh mux, under the race detector; every response is compared with the one that another mux of the same kind gives to the request alone. Non-trivial: at least two goroutines and two requests that reach a handler.",
		400, 8000, genConc, runConc)
}
