package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"time"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/cache"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"pgregory.net/rapid"
)

// ---- C48: what middlewares pass on reaches the handler ----

type ctxReq struct {
	Method   string `json:"method"`
	Tenant   string `json:"tenant"`
	Id       string `json:"id"`
	Query    string `json:"query,omitempty"`
	Headers  []kv   `json:"headers,omitempty"`
	CType    string `json:"ctype,omitempty"`
	Body     Str    `json:"body"`
	Values   uint32 `json:"values"`           // the probes that add a value to the context
	Deadline []int  `json:"deadline"`         // per probe: hours until its deadline, 0 for none; the last one is the server's
	Swap     uint32 `json:"swap"`             // the probes that pass another request on
	Cancel   int    `json:"cancel"`           // the probe whose context the handler cancels; -1 the client's, -2 nobody's
	Nested   bool   `json:"nested,omitempty"` // the next request is made while the handler of this one runs
	Fail     bool   `json:"fail,omitempty"`
}

type ctxCase struct {
	Stack  []string `json:"stack"` // outermost first; "probe" is a middleware of the application
	Common int      `json:"common"`
	Reqs   []ctxReq `json:"reqs"`
}

type levelKey int

const ctxClient levelKey = -1

var errCtxCause = errors.New("the cause")

type ctxRun struct {
	values    map[levelKey]string
	deadlines []time.Time
	cancels   map[int]context.CancelCauseFunc
	cancelled int // the outermost cancelled level, with -1 the client; none: a large number
	swaps     []int
	stops     []func() // to be called after the request
	body      string
	handled   bool
	err       error
}

func runContext(c *Ctx, cc ctxCase) error {
	now := time.Now()
	runs := make([]*ctxRun, len(cc.Reqs))
	nonces := cache.NewInMemory()
	var ms []middleware.Middleware
	nProbes := 0
	has := map[string]bool{}
	// what a context has to be at a level: the values, deadline and state of the probes outside of it
	check := func(i, level int, where string, ctx context.Context, mc path.MatchingContext) {
		run, q := runs[i], cc.Reqs[i]
		fail := func(f string, a ...any) {
			if run.err == nil {
				run.err = fmt.Errorf("request %d, %s: %s", i, where, fmt.Sprintf(f, a...))
			}
		}
		for k := -1; k < nProbes; k++ {
			var want any
			if v, ok := run.values[levelKey(k)]; ok && k < level {
				want = v
			}
			if got := ctx.Value(levelKey(k)); got != want {
				fail("the context has the value %v of level %d, want %v", got, k, want)
			}
		}
		var want time.Time
		for k, d := range run.deadlines {
			if k-1 < level && !d.IsZero() && (want.IsZero() || d.Before(want)) {
				want = d
			}
		}
		if got, ok := ctx.Deadline(); ok == want.IsZero() || ok && !got.Equal(want) {
			fail("the deadline is %v (%v), want %v", got, ok, want)
		}
		done := false
		select {
		case <-ctx.Done():
			done = true
		default:
		}
		if done != (run.cancelled < level) || done != (ctx.Err() != nil) {
			fail("done: %v (error %v), but cancelled at level %d", done, ctx.Err(), run.cancelled)
		}
		if done && context.Cause(ctx) != errCtxCause {
			fail("the cause is %v, not that of the canceller", context.Cause(ctx))
		}
		// the request and its variables
		r := mc.R
		if r == nil {
			fail("there is no request")
			return
		}
		if r.Method != q.Method || r.URL.Path != "/t/"+q.Tenant+"/res/"+q.Id || r.URL.RawQuery != q.Query || r.Host != "example.test" || r.RemoteAddr != "192.0.2.1:99" {
			fail("the request is %s %s?%s for %s from %s", r.Method, r.URL.Path, r.URL.RawQuery, r.Host, r.RemoteAddr)
		}
		wantH := q.header(i)
		for _, k := range run.swaps {
			if k < level {
				wantH.Set(fmt.Sprint("X-Swap-", k), "yes")
			}
		}
		if !reflect.DeepEqual(r.Header, wantH) {
			fail("the headers of the request are %q, want %q", r.Header, wantH)
		}
		if r.Context().Value(ctxClient) != fmt.Sprint("client ", i) {
			fail("the context of the request has the value %v of the client", r.Context().Value(ctxClient))
		}
		if a, b := mc.PathVar("tenant"), mc.PathVar("id"); a != q.Tenant || b != q.Id {
			fail("the path variables are %q and %q, want %q and %q", a, b, q.Tenant, q.Id)
		}
	}
	var dumps []string
	for _, n := range cc.Stack {
		has[n] = true
		switch n {
		case "probe":
			k := nProbes
			nProbes++
			ms = append(ms, func(h handler.Handler) handler.Handler {
				return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
					i := ctxIndex(mc)
					if i < 0 {
						return nil, errors.New("a request without its number")
					}
					run, q := runs[i], cc.Reqs[i]
					check(i, k, fmt.Sprintf("entering probe %d", k), ctx, mc)
					inner, innerMc := ctx, mc
					if q.Values&(1<<k) != 0 {
						v := fmt.Sprintf("value of probe %d for request %d", k, i)
						run.values[levelKey(k)] = v
						inner = context.WithValue(inner, levelKey(k), v)
					}
					if d := q.Deadline[k+1]; d > 0 {
						at := now.Add(time.Duration(d) * time.Hour)
						run.deadlines[k+1] = at
						var cancel context.CancelFunc
						inner, cancel = context.WithDeadline(inner, at)
						run.stops = append(run.stops, cancel)
					}
					inner, cancel := context.WithCancelCause(inner)
					run.stops = append(run.stops, func() { cancel(nil) })
					run.cancels[k] = cancel
					if q.Swap&(1<<k) != 0 {
						r := mc.R.Clone(mc.R.Context())
						r.Header.Set(fmt.Sprint("X-Swap-", k), "yes")
						innerMc.R = r
						run.swaps = append(run.swaps, k)
					}
					resp, err := h(inner, innerMc)
					check(i, k, fmt.Sprintf("leaving probe %d", k), ctx, mc)
					return resp, err
				}
			})
		case "panic":
			ms = append(ms, middleware.PanicRecover())
		case "errors":
			ms = append(ms, middleware.ErrJsonResponse())
		case "cors":
			ms = append(ms, middleware.Cors(middleware.CorsConfig{AnyOriginAllowed: true, AllowedHttpMethods: []string{"GET", "POST", "PUT", "DELETE"}}))
		case "security":
			ms = append(ms, middleware.SecurityHeaders(secCase{STS: true, Sniff: true, MaxAge: 100}.real()))
		case "compress":
			ms = append(ms, middleware.CompressResponse(6))
		case "dump":
			ms = append(ms, middleware.RequestDumper(func(s string) { dumps = append(dumps, s) }))
		case "csrf":
			ms = append(ms, middleware.CSRFPrevention(nonces))
		case "principal":
			ms = append(ms, middleware.SecurityPrincipalSupplier(func(ctx context.Context, mc path.MatchingContext) (auth.SecurityPrincipal, error) {
				u := stackUser()
				u.Id = fmt.Sprint("user ", ctxIndex(mc))
				return u, nil
			}))
		case "authzall":
			ms = append(ms, middleware.AuthorizeAll(stackPerm))
		case "authz":
			ms = append(ms, middleware.AuthorizeAny(stackPerm))
		}
	}
	var logged []error
	m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(e error) { logged = append(logged, e) }})
	if err != nil {
		return err
	}
	sub := m.RouteUsingPathPrefix("/t/{tenant}")
	k := min(cc.Common, len(ms))
	sub.CommonMiddlewares(ms[:k]...)
	var serve func(i int) int
	h := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		i := ctxIndex(mc)
		if i < 0 {
			return nil, errors.New("a request without its number")
		}
		run, q := runs[i], cc.Reqs[i]
		run.handled = true
		check(i, nProbes, "handler", ctx, mc)
		if q.Nested {
			serve(i + 1)
			check(i, nProbes, "handler after another request", ctx, mc)
		}
		b, err := io.ReadAll(mc.R.Body)
		if err != nil {
			run.body = fmt.Sprintf("error %v", err)
		} else {
			run.body = string(b)
		}
		if has["principal"] {
			if p := auth.GetSecurityPrincipalFromContext(ctx); p == nil || p.Identity() != fmt.Sprint("user ", i) {
				run.err = fmt.Errorf("request %d: the principal is %v", i, p)
			}
		} else if p := auth.GetSecurityPrincipalFromContext(ctx); p != nil {
			run.err = fmt.Errorf("request %d: the principal is %v, nobody supplied one", i, p)
		}
		if n := middleware.GetCSRFNonceFromContext(ctx); has["csrf"] != (n != "") {
			run.err = fmt.Errorf("request %d: the nonce is %q", i, n)
		}
		if q.Cancel >= -1 {
			if cancel := run.cancels[q.Cancel]; cancel != nil {
				run.cancelled = q.Cancel
				cancel(errCtxCause)
				check(i, nProbes, "handler after the cancellation", ctx, mc)
			}
		}
		if q.Fail {
			return nil, errCtxCause
		}
		return response.RawWriterHttpResponse("text/plain", func(w io.Writer) error {
			check(i, nProbes, "while the response is written", ctx, mc)
			_, err := io.WriteString(w, "ok")
			return err
		}), nil
	}
	for _, method := range []string{"GET", "POST", "PUT", "DELETE"} {
		sub.HandleRequest(method, "/res/{id}", h, ms[k:]...)
	}
	next := 0
	serve = func(i int) int {
		if i >= len(cc.Reqs) {
			return 0
		}
		next = i + 1
		q := cc.Reqs[i]
		run := &ctxRun{values: map[levelKey]string{ctxClient: fmt.Sprint("client ", i)}, deadlines: make([]time.Time, nProbes+1), cancels: map[int]context.CancelCauseFunc{}, cancelled: 1 << 20}
		runs[i] = run
		r := testReq(q.Method, "/t/"+q.Tenant+"/res/"+q.Id+"?"+q.Query, strings.NewReader(string(q.Body)))
		r.URL.RawQuery = q.Query
		r.Host, r.RemoteAddr, r.Header = "example.test", "192.0.2.1:99", q.header(i)
		_ = nonces.Add(r.Header.Get(middleware.CSRFRestNonceHeaderName), time.Hour)
		ctx, cancel := context.WithCancelCause(context.WithValue(r.Context(), ctxClient, run.values[ctxClient]))
		defer cancel(nil)
		run.cancels[-1] = cancel
		if d := q.Deadline[0]; d > 0 {
			run.deadlines[0] = now.Add(time.Duration(d) * time.Hour)
			var stop context.CancelFunc
			ctx, stop = context.WithDeadline(ctx, run.deadlines[0])
			defer stop()
		}
		rec := httptest.NewRecorder()
		m.ServeHTTP(rec, r.WithContext(ctx))
		for _, stop := range run.stops {
			stop()
		}
		return rec.Code
	}
	for next < len(cc.Reqs) {
		i := next
		code := serve(i)
		if !runs[i].handled {
			return fmt.Errorf("%v: request %d does not reach the handler, it is answered with %d (errors %v)", cc.Stack, i, code, logged)
		}
	}
	for i, run := range runs {
		if run.err != nil {
			return fmt.Errorf("%v: %w", cc.Stack, run.err)
		}
		if !run.handled {
			return fmt.Errorf("%v: request %d does not reach the handler", cc.Stack, i)
		}
		if run.body != string(cc.Reqs[i].Body) {
			return fmt.Errorf("%v: request %d: the handler reads the body %q, sent was %q", cc.Stack, i, run.body, cc.Reqs[i].Body)
		}
		c.ClassIf(len(run.values) > 1, "values")
		c.ClassIf(run.cancelled < 1<<20, "cancelled")
		c.ClassIf(len(run.swaps) > 0, "another request passed on")
		c.ClassIf(cc.Reqs[i].Nested && i+1 < len(runs), "nested")
		if len(run.values) > 1 && len(cc.Stack) > nProbes {
			c.NonTrivial()
		}
	}
	return nil
}

// ctxIndex is the number of the request of a case.
func ctxIndex(mc path.MatchingContext) int {
	i := -1
	if mc.R != nil {
		if _, err := fmt.Sscan(mc.R.Header.Get("X-Number"), &i); err != nil {
			return -1
		}
	}
	return i
}

func (q ctxReq) header(i int) http.Header {
	h := http.Header{"X-Number": {fmt.Sprint(i)}, middleware.CSRFRestNonceHeaderName: {fmt.Sprint("nonce of ", i)}, "Accept-Encoding": {"gzip"}}
	if q.CType != "" {
		h.Set("Content-Type", q.CType)
	}
	for _, x := range q.Headers {
		h.Add(x.K, string(x.V))
	}
	return h
}

func genContext(t *rapid.T) ctxCase {
	var cc ctxCase
	names := []string{"probe", "probe", "panic", "errors", "cors", "security", "compress", "dump", "csrf", "principal"}
	n := rapid.IntRange(1, 3).Draw(t, "probes")
	names = append(names[:2-min(n, 2)], names[2:]...)
	for ; n > 0; n-- {
		names = append(names, "probe")
	}
	for _, x := range rapid.Permutation(names).Draw(t, "order") {
		if x == "probe" || rapid.IntRange(0, 2).Draw(t, x) == 0 {
			cc.Stack = append(cc.Stack, x)
			if x == "principal" && rapid.Bool().Draw(t, "authz") {
				cc.Stack = append(cc.Stack, rapid.SampledFrom([]string{"authz", "authzall"}).Draw(t, "which"))
			}
		}
	}
	cc.Common = rapid.IntRange(0, len(cc.Stack)).Draw(t, "common")
	probes := 0
	for _, x := range cc.Stack {
		if x == "probe" {
			probes++
		}
	}
	text := rapid.StringMatching(`[a-zA-Z0-9_~-]{1,12}`)
	for n := several(t, 1, 4, 20, "reqs"); n > 0; n-- {
		q := ctxReq{Method: rapid.SampledFrom([]string{"GET", "POST", "PUT", "DELETE"}).Draw(t, "method"), Tenant: text.Draw(t, "tenant"), Id: text.Draw(t, "id"),
			Values: rapid.Uint32Range(0, 1<<probes-1).Draw(t, "values"), Swap: rapid.Uint32Range(0, 1<<probes-1).Draw(t, "swap"),
			Cancel: rapid.IntRange(-2, probes-1).Draw(t, "cancel"), Nested: rapid.IntRange(0, 2).Draw(t, "nested") == 0, Fail: rapid.IntRange(0, 3).Draw(t, "fail") == 0}
		for k := 0; k <= probes; k++ {
			q.Deadline = append(q.Deadline, max(0, rapid.IntRange(-2, 9).Draw(t, "deadline")))
		}
		q.Query = rapid.SampledFrom([]string{"", "a=1", "a=1&a=2&b=%20", "X-Csrf-Token=other"}).Draw(t, "query")
		if q.Method != "GET" || rapid.IntRange(0, 3).Draw(t, "body") == 0 {
			q.CType = rapid.SampledFrom([]string{"application/x-www-form-urlencoded", "application/json", "text/plain"}).Draw(t, "ctype")
			q.Body = Str(rapid.SampledFrom([]string{"", "a=1&b=2", `{"a":1}`, "a=%zz&\x00", strings.Repeat("body ", 3000)}).Draw(t, "payload"))
		}
		for _, x := range []string{"Authorization", "Cookie", "X-Multi", "X-Multi"} {
			if rapid.Bool().Draw(t, x) {
				q.Headers = append(q.Headers, kv{x, Str("v=" + text.Draw(t, "v"))})
			}
		}
		cc.Reqs = append(cc.Reqs, q)
	}
	return cc
}

func init() {
	register("C48", "Stacks of 1-3 middlewares of the application and any of nine provided ones in any order, common or not, below a prefix with a variable, and 1-4 requests, some made while the handler of another one runs; each middleware adds a value, a deadline, a cancellation or a changed request for some of them. Non-trivial: a value is passed through a provided middleware.",
		4000, 80000, genContext, runContext)
}
