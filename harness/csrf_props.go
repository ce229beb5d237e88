package main

import (
	"bytes"
	"context"
	stderrors "errors"
	"fmt"
	"mime/multipart"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"time"

	"github.com/ixtendio/gofre/cache"
	"github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"pgregory.net/rapid"
)

// virtualCache implements cache.Cache over a clock that the case advances.
type virtualCache struct {
	now     time.Duration
	keys    map[string]time.Duration
	failAdd error
}

func newVirtualCache() *virtualCache { return &virtualCache{keys: map[string]time.Duration{}} }
func (v *virtualCache) Add(k string, d time.Duration) error {
	if v.failAdd != nil {
		return v.failAdd
	}
	v.keys[k] = v.now + d
	return nil
}
func (v *virtualCache) Remove(k string)        { delete(v.keys, k) }
func (v *virtualCache) Contains(k string) bool { t, ok := v.keys[k]; return ok && v.now < t }

const (
	locHeader = iota
	locQuery
	locForm
	locMultipart
	locHeaderAndQuery // the header has the nonce, the query has another valid looking one
	locCount
)

const (
	nonceIssued = iota
	nonceMissing
	nonceEmpty
	nonceForeign
	nonceFlipped // an issued one in the other letter case
	nonceCut
	nonceLonger
	nonceOtherParam // an issued one, under another parameter name
	nonceElsewhere  // issued by another application of the process, with a cache of its own
	nonceSpaced     // an issued one with white space around it
	nonceKinds
)

type csrfOp struct {
	Method  string `json:"m"`
	H       int    `json:"h"`
	Kind    int    `json:"kind"`
	Idx     int    `json:"idx"` // which of the issued nonces, counted from the latest
	Loc     int    `json:"loc"`
	Decoy   int    `json:"decoy"` // for locHeaderAndQuery
	Parsed  bool   `json:"parsed,omitempty"`
	Out     int    `json:"out"` // 0 ok, 1 error, 2 panic
	AddFail bool   `json:"addFail,omitempty"`
	Advance int64  `json:"adv,omitempty"`  // seconds that pass before the request
	Gone    int    `json:"gone,omitempty"` // 1: the client has gone away before, 2: a deadline has passed
}

type csrfCase struct {
	Param    string   `json:"param"`
	Header   string   `json:"header"`
	TTL      int64    `json:"ttl"`
	Virtual  bool     `json:"virtual"`
	Handlers int      `json:"handlers"`
	Split    bool     `json:"split"`              // every handler has a middleware of its own over the same cache
	EmptyKey bool     `json:"emptyKey,omitempty"` // somebody else put the empty key into the cache
	Burst    bool     `json:"burst,omitempty"`    // many nonces are issued first
	Ops      []csrfOp `json:"ops"`
}

var csrfFormMethods = map[string]bool{"POST": true, "PUT": true, "PATCH": true}
var csrfSafe = map[string]bool{"GET": true, "HEAD": true, "TRACE": true, "OPTIONS": true}

func csrfRequest(method, param, header string, loc int, value, decoy string) *http.Request {
	const target = "/form?a=1"
	switch loc {
	case locHeader:
		r := newReq(method, "/form")
		r.Header.Set(header, value)
		return r
	case locHeaderAndQuery:
		r := testReq(method, target+"&"+url.QueryEscape(param)+"="+url.QueryEscape(decoy), nil)
		r.Header.Set(header, value)
		return r
	case locForm:
		f := url.Values{param: {value}, "x": {"y z&"}}
		r := testReq(method, target, strings.NewReader(f.Encode()))
		r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
		return r
	case locMultipart:
		var b bytes.Buffer
		w := multipart.NewWriter(&b)
		_ = w.WriteField("x", "y")
		_ = w.WriteField(param, value)
		_ = w.Close()
		r := testReq(method, target, &b)
		r.Header.Set("Content-Type", w.FormDataContentType())
		return r
	}
	return testReq(method, target+"&"+url.QueryEscape(param)+"="+url.QueryEscape(value), nil)
}

func csrfMiddleware(c cache.Cache, param, header string) middleware.Middleware {
	if param == middleware.CSRFNonceRequestParamName && header == middleware.CSRFRestNonceHeaderName {
		return middleware.CSRFPrevention(c)
	}
	return middleware.CSRFPreventionWithCustomParamAndHeaderName(c, param, header)
}

func genCSRF(t *rapid.T) csrfCase {
	var c csrfCase
	c.Param = rapid.SampledFrom([]string{middleware.CSRFNonceRequestParamName, middleware.CSRFNonceRequestParamName, "tok en&=", "csrfÄ"}).Draw(t, "param")
	c.Header = rapid.SampledFrom([]string{middleware.CSRFRestNonceHeaderName, middleware.CSRFRestNonceHeaderName, "x-my-token", "X_Odd.Token"}).Draw(t, "header")
	c.TTL = rapid.SampledFrom([]int64{3600, 60, 1, 86400 * 30, 90, 7}).Draw(t, "ttl")
	c.Virtual = rapid.IntRange(0, 3).Draw(t, "real") < 3
	c.Handlers = rapid.IntRange(1, 3).Draw(t, "handlers")
	c.Split = rapid.Bool().Draw(t, "split")
	c.EmptyKey = rapid.IntRange(0, 4).Draw(t, "emptyKey") == 4
	c.Burst = rapid.IntRange(0, 399).Draw(t, "burst") == 317
	n := several(t, 1, 14, 80, "nops")
	for i := 0; i < n; i++ {
		var o csrfOp
		if i > 0 && rapid.IntRange(0, 5).Draw(t, "safe") > 1 {
			o.Method = rapid.SampledFrom([]string{"POST", "POST", "PUT", "PATCH", "DELETE", "PURGE", "CONNECT", "PROPFIND", "GETX"}).Draw(t, "method")
		} else {
			o.Method = rapid.SampledFrom([]string{"GET", "GET", "HEAD", "TRACE", "OPTIONS", "POST"}).Draw(t, "method")
		}
		o.H = rapid.IntRange(0, c.Handlers-1).Draw(t, "h")
		if rapid.IntRange(0, 3).Draw(t, "odd") == 0 {
			o.Kind = rapid.IntRange(0, nonceKinds-1).Draw(t, "kind")
		}
		o.Idx = rapid.IntRange(0, 4).Draw(t, "idx")
		locs := []int{locHeader, locQuery, locHeaderAndQuery}
		if csrfFormMethods[o.Method] {
			locs = append(locs, locForm, locForm, locMultipart)
		}
		o.Loc = rapid.SampledFrom(locs).Draw(t, "loc")
		o.Decoy = rapid.IntRange(-1, 4).Draw(t, "decoy")
		o.Parsed = rapid.IntRange(0, 4).Draw(t, "parsed") == 4
		if k := rapid.IntRange(0, 7).Draw(t, "out"); k > 5 {
			o.Out = k - 5
		}
		if k := rapid.IntRange(0, 11).Draw(t, "gone"); k > 9 {
			o.Gone = k - 9
		}
		o.AddFail = c.Virtual && rapid.IntRange(0, 11).Draw(t, "addFail") == 11
		if c.Virtual && rapid.IntRange(0, 3).Draw(t, "wait") == 3 {
			o.Advance = rapid.SampledFrom([]int64{c.TTL / 2, c.TTL - 1, c.TTL + 1, 2*c.TTL + 1}).Draw(t, "adv")
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func runCSRF(c *Ctx, cc csrfCase) error {
	old := middleware.CSRFExpirationTime
	middleware.CSRFExpirationTime = time.Duration(cc.TTL) * time.Second
	if !cc.Virtual {
		middleware.CSRFExpirationTime = time.Hour
	}
	ttl := middleware.CSRFExpirationTime
	defer func() { middleware.CSRFExpirationTime = old }()

	var store cache.Cache
	vc := newVirtualCache()
	store = vc
	if !cc.Virtual {
		store = cache.NewInMemory()
	}
	if cc.EmptyKey {
		_ = store.Add("", 100*365*24*time.Hour)
	}
	type issued struct {
		at            time.Duration
		used, unknown bool
	}
	state := map[string]*issued{}
	var order []string
	reached := -1
	var gotNonce string
	var outcome int
	var spending, unspent string // the nonce that the current request has to spend, and whether the handler ran before
	errHandler := stderrors.New("handler failed")
	errStore := stderrors.New("cache full")
	ok := response.PlainTextHttpResponseOK("fine")
	mw := csrfMiddleware(store, cc.Param, cc.Header)
	var hs []handler.Handler
	for i := 0; i < cc.Handlers; i++ {
		if cc.Split {
			mw = csrfMiddleware(store, cc.Param, cc.Header)
		}
		hs = append(hs, mw(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			reached = i
			gotNonce = middleware.GetCSRFNonceFromContext(ctx)
			if spending != "" && store.Contains(spending) {
				unspent = spending
			}
			switch outcome {
			case 1:
				return nil, errHandler
			case 2:
				panic("handler panics")
			}
			return ok, nil
		}))
	}
	// another application of the same process
	var elsewhere string
	other := csrfMiddleware(cache.NewInMemory(), cc.Param, cc.Header)(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		elsewhere = middleware.GetCSRFNonceFromContext(ctx)
		return ok, nil
	})
	now := func() time.Duration { return vc.now }
	nth := func(i int) string {
		if i < 0 || len(order) == 0 {
			return ""
		}
		return order[len(order)-1-i%len(order)]
	}
	valid := func(n string) bool {
		s := state[n]
		return s != nil && !s.used && now() < s.at+ttl
	}
	unknown := func(n string) bool { s := state[n]; return s != nil && s.unknown }
	if cc.Burst {
		for k := 0; k < burst; k++ {
			r := newReq("GET", "/form")
			gotNonce = ""
			if _, err := hs[k%len(hs)](r.Context(), path.MatchingContext{R: r}); err != nil {
				return fmt.Errorf("GET failed: %v", err)
			}
			state[gotNonce] = &issued{at: now()}
			order = append(order, gotNonce)
		}
		if err := guessable(order, 96); err != nil {
			return err
		}
		c.Class("burst")
	}
	for i, o := range cc.Ops {
		vc.now += time.Duration(o.Advance) * time.Second
		n := nth(o.Idx)
		param := cc.Param
		switch o.Kind {
		case nonceMissing, nonceEmpty:
			n = ""
		case nonceForeign:
			n = fmt.Sprintf("%032X", 12345+i)
		case nonceElsewhere:
			g := newReq("GET", "/form")
			if _, err := other(g.Context(), path.MatchingContext{R: g}); err != nil || state[elsewhere] != nil || elsewhere == "" {
				return fmt.Errorf("operation %d: a GET to another middleware gives the nonce %q, error %v", i, elsewhere, err)
			}
			n = elsewhere
		case nonceFlipped:
			n = flipCase(n)
		case nonceCut:
			n = n[:max(0, len(n)-1)]
		case nonceLonger:
			n += "0"
		case nonceSpaced:
			if n != "" && o.Loc != locHeader && o.Loc != locHeaderAndQuery { // (white space around a header value is not part of it)
				n = []string{" " + n, n + "\n", "\t" + n + " "}[o.Idx%3]
			}
		case nonceOtherParam:
			param += "2"
		}
		header := cc.Header
		if o.Kind == nonceOtherParam {
			header += "-2"
		}
		decoy := nth(o.Decoy)
		var r *http.Request
		if o.Kind == nonceMissing {
			r = newReq(o.Method, "/form")
		} else {
			r = csrfRequest(o.Method, param, header, o.Loc, n, decoy)
		}
		presented := n
		if o.Kind == nonceOtherParam {
			presented = ""
		}
		if o.Loc == locHeaderAndQuery && o.Kind == nonceEmpty {
			presented = decoy // an empty header is no header
		}
		if unknown(presented) {
			continue
		}
		if o.Parsed {
			_ = r.ParseMultipartForm(1 << 20)
		}
		needs := !csrfSafe[o.Method]
		admit := !needs || presented != "" && valid(presented)
		vc.failAdd = nil
		if o.AddFail {
			vc.failAdd = errStore
		}
		outcome, reached, gotNonce = o.Out, -1, ""
		spending, unspent = "", ""
		if needs {
			spending = presented
		}
		var resp response.HttpResponse
		var err error
		var pan any
		func() {
			defer func() { pan = recover() }()
			ctx, cancel := context.WithCancel(r.Context())
			switch o.Gone {
			case 1:
				cancel()
			case 2:
				ctx, cancel = context.WithDeadline(ctx, time.Now().Add(-time.Second))
			}
			defer cancel()
			r = r.WithContext(ctx)
			resp, err = hs[o.H](ctx, path.MatchingContext{R: r})
		}()
		vc.failAdd = nil
		c.ClassIf(o.Gone > 0, "context done")
		spending = ""
		what := fmt.Sprintf("operation %d (%s, nonce %q, kind %d, location %d)", i, o.Method, presented, o.Kind, o.Loc)
		if unspent != "" {
			return fmt.Errorf("%s: the handler runs while the nonce is still in the cache, where another process would accept it", what)
		}
		if o.AddFail && admit {
			if reached >= 0 || err == nil {
				return fmt.Errorf("%s: no nonce could be stored but the handler ran (%v) or there was no error (%v)", what, reached >= 0, err)
			}
			if needs {
				state[presented].unknown = true
			}
			c.Class("nonce could not be stored")
			continue
		}
		if !admit {
			if reached >= 0 {
				return fmt.Errorf("%s: must be refused but reached the handler", what)
			}
			if pan != nil {
				return fmt.Errorf("%s: panic %v", what, pan)
			}
			if !stderrors.Is(err, errors.ErrAccessDenied) || resp != nil {
				return fmt.Errorf("%s: error %v, response %v, want ErrAccessDenied and none", what, err, resp)
			}
			c.Class("refused")
			if o.Kind == nonceElsewhere {
				last := elsewhere
				r := csrfRequest("POST", cc.Param, cc.Header, locHeader, last, "")
				if _, err := other(r.Context(), path.MatchingContext{R: r}); err != nil {
					return fmt.Errorf("%s: the middleware that issued the nonce refuses it after another one did: %v", what, err)
				}
				r = csrfRequest("POST", cc.Param, cc.Header, locHeader, last, "")
				if _, err := other(r.Context(), path.MatchingContext{R: r}); !stderrors.Is(err, errors.ErrAccessDenied) {
					return fmt.Errorf("%s: the middleware that issued the nonce accepts it twice: %v", what, err)
				}
				c.Class("refused: issued elsewhere")
			}
			if s := state[presented]; s != nil {
				c.NonTrivial()
				c.ClassIf(s.used, "refused: used before")
				c.ClassIf(!s.used, "refused: expired")
			}
			continue
		}
		if reached != o.H {
			return fmt.Errorf("%s: must reach handler %d, reached %d (error %v)", what, o.H, reached, err)
		}
		switch o.Out {
		case 0:
			if err != nil || resp == nil || resp.StatusCode() != 200 {
				return fmt.Errorf("%s: the handler's answer did not come through: %v, %v", what, resp, err)
			}
		case 1:
			if err != errHandler {
				return fmt.Errorf("%s: the handler's error did not come through: %v", what, err)
			}
		case 2:
			if pan == nil {
				return fmt.Errorf("%s: the handler's panic was swallowed", what)
			}
		}
		if gotNonce == "" {
			return fmt.Errorf("%s: the handler found no nonce in its context", what)
		}
		if state[gotNonce] != nil {
			return fmt.Errorf("%s: the handler found the nonce %q, which was handed out before", what, gotNonce)
		}
		if needs {
			state[presented].used = true
			c.NonTrivial()
			c.Class("accepted")
			c.ClassIf(o.Loc == locForm || o.Loc == locMultipart, "accepted from the body")
			c.ClassIf(o.Loc == locQuery, "accepted from the query")
		}
		state[gotNonce] = &issued{at: now()}
		order = append(order, gotNonce)
	}
	return nil
}

// slowCache makes the steps of a middleware overlap.
type slowCache struct {
	cache.Cache
	before, after time.Duration
}

func (s slowCache) Contains(k string) bool {
	time.Sleep(s.before)
	ok := s.Cache.Contains(k)
	time.Sleep(s.after)
	return ok
}
func (s slowCache) Remove(k string) {
	time.Sleep(s.before)
	s.Cache.Remove(k)
	time.Sleep(s.after)
}

type csrfConcCase struct {
	Handlers int   `json:"handlers"`
	Split    bool  `json:"split"`
	Issued   int   `json:"issued"`
	Slow     []int `json:"slow"` // microseconds: before and after every cache access, in the handler
	Reqs     []struct {
		Kind int `json:"k"` // 0 nonce, 1 GET, 2 foreign nonce, 3 none
		N    int `json:"n"`
		Loc  int `json:"loc"`
		H    int `json:"h"`
	} `json:"reqs"`
}

func init() {
	register("C21", "Histories of 1-14 requests of nine methods over 1-3 handlers that share a nonce cache (one middleware or several), with issued, used, expired, foreign, altered, misnamed, empty and missing nonces and ones of another application of the process in the header, query, urlencoded or multipart body, handlers that answer, fail or panic, requests whose context is done already, a failing cache and a virtual clock (or the in-memory cache). Non-trivial: an issued nonce is presented by a state-changing request.",
		12000, 150000, genCSRF, runCSRF)

	register("C22", "2-12 requests started together, that present 1-4 issued nonces (shared and distinct), foreign ones or none, or that are safe, over 1-3 handlers and one or several middlewares on one in-memory cache whose accesses are stretched by 0-300 microseconds; then every nonce is presented again, one after another. Non-trivial: two concurrent requests present the same nonce.",
		600, 6000, func(t *rapid.T) csrfConcCase {
			var c csrfConcCase
			c.Handlers = rapid.IntRange(1, 3).Draw(t, "handlers")
			c.Split = rapid.Bool().Draw(t, "split")
			c.Issued = several(t, 1, 4, 30, "issued")
			for i := 0; i < 3; i++ {
				c.Slow = append(c.Slow, rapid.SampledFrom([]int{0, 0, 20, 100, 300}).Draw(t, "slow"))
			}
			n := several(t, 2, 12, 40, "nreq")
			for i := 0; i < n; i++ {
				q := struct {
					Kind int `json:"k"`
					N    int `json:"n"`
					Loc  int `json:"loc"`
					H    int `json:"h"`
				}{}
				q.Kind = rapid.SampledFrom([]int{0, 0, 0, 0, 0, 1, 2, 3}).Draw(t, "kind")
				q.N = rapid.IntRange(0, c.Issued-1).Draw(t, "n")
				q.Loc = rapid.IntRange(0, locMultipart).Draw(t, "loc")
				q.H = rapid.IntRange(0, c.Handlers-1).Draw(t, "h")
				c.Reqs = append(c.Reqs, q)
			}
			return c
		}, runCSRFConc)
}

func runCSRFConc(c *Ctx, cc csrfConcCase) error {
	us := func(i int) time.Duration { return time.Duration(cc.Slow[i]) * time.Microsecond }
	store := slowCache{cache.NewInMemory(), us(0), us(1)}
	type answer struct {
		reached bool
		nonce   string
		err     error
	}
	type key struct{}
	mw := csrfMiddleware(store, middleware.CSRFNonceRequestParamName, middleware.CSRFRestNonceHeaderName)
	var hs []handler.Handler
	for i := 0; i < cc.Handlers; i++ {
		if cc.Split {
			mw = csrfMiddleware(store, middleware.CSRFNonceRequestParamName, middleware.CSRFRestNonceHeaderName)
		}
		hs = append(hs, mw(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			a := ctx.Value(key{}).(*answer)
			a.reached = true
			a.nonce = middleware.GetCSRFNonceFromContext(ctx)
			time.Sleep(us(2))
			return response.PlainTextHttpResponseOK("fine"), nil
		}))
	}
	do := func(h int, method string, loc int, nonce string) answer {
		var a answer
		r := csrfRequest(method, middleware.CSRFNonceRequestParamName, middleware.CSRFRestNonceHeaderName, loc, nonce, "")
		resp, err := hs[h](context.WithValue(r.Context(), key{}, &a), path.MatchingContext{R: r})
		a.err = err
		if a.err == nil {
			w := httptest.NewRecorder()
			if werr := resp.Write(w, path.MatchingContext{R: r}); werr != nil || w.Body.String() != "fine" {
				a.err = fmt.Errorf("response %q, %v", w.Body.String(), werr)
			}
		}
		return a
	}
	all := map[string]bool{}
	fresh := func(a answer) error {
		if a.nonce == "" || all[a.nonce] {
			return fmt.Errorf("the nonce %q was handed out twice or is empty", a.nonce)
		}
		all[a.nonce] = true
		return nil
	}
	var nonces []string
	for i := 0; i < cc.Issued; i++ {
		a := do(i%cc.Handlers, "GET", locHeader, "")
		if a.err != nil {
			return fmt.Errorf("GET failed: %v", a.err)
		}
		if err := fresh(a); err != nil {
			return err
		}
		nonces = append(nonces, a.nonce)
	}
	presenters := map[int]int{}
	for _, q := range cc.Reqs {
		if q.Kind == 0 {
			presenters[q.N]++
			if presenters[q.N] > 1 {
				c.NonTrivial()
			}
		}
	}
	answers := make([]answer, len(cc.Reqs))
	gate := make(chan struct{})
	var wg sync.WaitGroup
	for i, q := range cc.Reqs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			switch q.Kind {
			case 0:
				answers[i] = do(q.H, "POST", q.Loc, nonces[q.N])
			case 1:
				answers[i] = do(q.H, "GET", locHeader, "")
			case 2:
				answers[i] = do(q.H, "POST", q.Loc, fmt.Sprintf("%032X", i))
			default:
				answers[i] = do(q.H, "POST", q.Loc, "")
			}
		}()
	}
	close(gate)
	wg.Wait()
	won := map[int]int{}
	var later []string
	for i, q := range cc.Reqs {
		a := answers[i]
		if a.reached {
			if a.err != nil {
				return fmt.Errorf("request %d reached the handler but got %v", i, a.err)
			}
			if err := fresh(a); err != nil {
				return err
			}
			later = append(later, a.nonce)
		} else if !stderrors.Is(a.err, errors.ErrAccessDenied) {
			return fmt.Errorf("request %d was refused with %v", i, a.err)
		}
		switch q.Kind {
		case 0:
			if a.reached {
				won[q.N]++
			}
		case 1:
			if !a.reached {
				return fmt.Errorf("GET request %d was refused", i)
			}
		default:
			if a.reached {
				return fmt.Errorf("request %d without a valid nonce reached the handler", i)
			}
		}
	}
	for n, k := range presenters {
		if won[n] != 1 {
			return fmt.Errorf("%d of the %d concurrent requests with nonce %d reached the handler, want 1", won[n], k, n)
		}
	}
	for n, s := range nonces {
		if a := do(0, "POST", locHeader, s); a.reached == (presenters[n] > 0) {
			return fmt.Errorf("nonce %d, presented %d times before, reached the handler afterwards: %v", n, presenters[n], a.reached)
		}
	}
	for _, s := range later {
		if a := do(0, "POST", locQuery, s); !a.reached {
			return fmt.Errorf("a nonce handed out to a concurrent request was refused: %v", a.err)
		}
		if a := do(0, "POST", locForm, s); a.reached {
			return fmt.Errorf("a nonce handed out to a concurrent request was accepted twice")
		}
	}
	return nil
}
