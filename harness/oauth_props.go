package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/auth/oauth"
	gerr "github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"pgregory.net/rapid"
)

// ---- C38: the flow ----

type flowOp struct {
	Op       string `json:"op"`              // initiate, authorize, advance, seed, burst
	Extra    string `json:"extra,omitempty"` // further parameters of the request that starts a flow
	Provider string `json:"provider,omitempty"`
	State    int    `json:"state,omitempty"` // stIssued...
	Idx      int    `json:"idx,omitempty"`   // which of the issued states, counted from the latest
	Error    string `json:"error,omitempty"`
	Code     Str    `json:"code,omitempty"`
	TokenErr bool   `json:"tokenErr,omitempty"`
	UserErr  bool   `json:"userErr,omitempty"`
	AddFail  bool   `json:"addFail,omitempty"`
	Seconds  int64  `json:"s,omitempty"`
	Rich     int    `json:"rich,omitempty"` // what the token and user consist of, see runFlow
}

const (
	stIssued = iota
	stMissing
	stEmpty
	stForeign
	stUpper
	stCut
	stOfParam // the issued state under another parameter name
	stLonger
	stPrefixed
	stSpaced
	stPattern
	stKinds
)

type flowCase struct {
	Providers []string `json:"providers"`
	Fetch     bool     `json:"fetch"`
	NoCache   bool     `json:"noCache,omitempty"`
	TTL       int64    `json:"ttl"`
	Custom    bool     `json:"custom,omitempty"`
	Prefix    string   `json:"prefix,omitempty"`
	Site      string   `json:"site,omitempty"` // the URL of the website, if it is another one
	Ops       []flowOp `json:"ops"`
}

type fakeProvider struct {
	name  string
	world *flowWorld
}

type flowWorld struct {
	op          flowOp
	initiated   []string
	tokens      []string
	users       int
	ctxOK       bool
	token       oauth.AccessToken
	user        auth.User
	errT, errU  error
	handled     int
	gotToken    oauth.AccessToken
	gotUser     auth.SecurityPrincipal
	lastErr     error
	lastOutcome int
}

func (f fakeProvider) Name() string { return f.name }
func (f fakeProvider) InitiateUrl(redirect, state string, user bool) string {
	f.world.initiated = append(f.world.initiated, fmt.Sprintf("%s|%s|%v", f.name, redirect, user))
	return "https://" + f.name + ".test/authorize?" + url.Values{"state": {state}}.Encode()
}
func (f fakeProvider) FetchAccessToken(ctx context.Context, redirect, code string) (oauth.AccessToken, error) {
	f.world.tokens = append(f.world.tokens, fmt.Sprintf("%s|%s|%q", f.name, redirect, code))
	f.world.ctxOK = ctx.Value(ctxKey("k")) == "v" && ctx.Value(ctxKey("mw")) == "v"
	if f.world.op.TokenErr {
		return oauth.AccessToken{}, f.world.errT
	}
	return f.world.token, nil
}
func (f fakeProvider) FetchAuthenticatedUser(ctx context.Context, t oauth.AccessToken) (auth.User, error) {
	f.world.users++
	if !reflect.DeepEqual(t, f.world.token) || ctx.Value(ctxKey("mw")) != "v" {
		f.world.ctxOK = false
	}
	if f.world.op.UserErr {
		return auth.User{}, f.world.errU
	}
	return f.world.user, nil
}

// sameURI: a website URL that ends with a slash may or may not give a double one.
func sameURI(a, b string) bool {
	f := func(s string) string { return strings.ReplaceAll(s, "//", "/") }
	return f(a) == f(b)
}

func runFlow(c *Ctx, fc flowCase) error {
	w := &flowWorld{errT: errors.New("token error"), errU: errors.New("user error")}
	vc := newVirtualCache()
	site := fc.Site
	if site == "" {
		site = "https://site.test"
	}
	conf := oauth.Config{WebsiteUrl: site, FetchUserDetails: fc.Fetch}
	if !fc.NoCache {
		conf.CacheConfig = oauth.CacheConfig{Cache: vc, KeyExpirationTime: time.Duration(fc.TTL) * time.Second}
	}
	for _, p := range fc.Providers {
		conf.Providers = append(conf.Providers, fakeProvider{p, w})
	}
	m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}})
	if err != nil {
		return err
	}
	m = m.RouteUsingPathPrefix(fc.Prefix)
	capture := func(h handler.Handler) handler.Handler {
		return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			resp, err := h(context.WithValue(ctx, ctxKey("mw"), "v"), mc)
			w.lastErr = err
			return resp, err
		}
	}
	done := func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		w.handled++
		w.gotToken = oauth.GetAccessTokenFromContext(ctx)
		w.gotUser = auth.GetSecurityPrincipalFromContext(ctx)
		w.ctxOK = w.ctxOK && ctx.Value(ctxKey("mw")) == "v"
		return response.PlainTextHttpResponse(299, "done"), nil
	}
	start, callback := "/oauth/initiate", "/oauth/authorize"
	mws := []middleware.Middleware{capture}
	if fc.Custom {
		start, callback = "/login", "/cb/back"
		m.HandleOAUTH2WithCustomPaths(start, callback, conf, done, mws, mws)
	} else {
		m.HandleOAUTH2(conf, done, mws, mws)
	}
	prefix := strings.TrimSuffix(fc.Prefix, "/")
	start, callback = prefix+start, prefix+callback
	known := map[string]bool{}
	for _, p := range fc.Providers {
		known[p] = true
	}
	var issued []string
	expires := map[string]time.Duration{}
	presented := map[string]bool{}
	redirects := map[string]string{} // the redirect URI of the last initiation, by provider
	send := func(method, target string) sent {
		w.initiated, w.tokens, w.users, w.handled, w.lastErr, w.ctxOK = nil, nil, 0, 0, nil, true
		w.gotToken, w.gotUser = oauth.AccessToken{}, nil
		r := testReq(method, target, nil)
		r = r.WithContext(context.WithValue(r.Context(), ctxKey("k"), "v"))
		rec := httptest.NewRecorder()
		m.ServeHTTP(rec, r)
		return recorded(rec, nil)
	}
	idle := func() error {
		if len(w.tokens)+w.users+w.handled > 0 {
			return fmt.Errorf("the provider (token %v, %d users) or the handler (%d times) was called", w.tokens, w.users, w.handled)
		}
		return nil
	}
	badRequest := func() error {
		if _, ok := w.lastErr.(gerr.ErrBadRequest); !ok {
			return fmt.Errorf("the error is %v, want a bad request", w.lastErr)
		}
		return nil
	}
	for i, op := range fc.Ops {
		w.op = op
		w.token = oauth.AccessToken{AccessToken: fmt.Sprint("token", i), TokenType: "bearer", Scopes: []string{"s"}, ExpiresInSeconds: i}
		w.user = auth.User{Id: fmt.Sprint("user", i), Name: "n", IdentityPlatform: op.Provider}
		if op.Rich&1 != 0 {
			w.user.Name, w.token.Scopes, w.token.ExpiresInSeconds = "", nil, 0
		}
		if op.Rich&2 != 0 {
			w.token.RefreshToken, w.token.TokenType = "r/ü", ""
			w.user.Id, w.user.Attachment = "ü@x.test", []int{i}
		}
		if op.Rich&4 != 0 {
			w.token.Scopes = []string{"", "b c", "b c"}
			w.user.IdentityPlatform = "elsewhere"
			w.user.Groups = []auth.Group{{Name: "g", Roles: []auth.Role{{Name: "admin", AllowedPermissions: []auth.Permission{{Scope: "a/*", Access: auth.AccessRead}}}}}}
		}
		fail := func(f string, a ...any) error {
			return fmt.Errorf("operation %d %+v: %w", i, op, fmt.Errorf(f, a...))
		}
		switch op.Op {
		case "seed":
			// an application that seeds the global generator must not make the states predictable
			rand.Seed(op.Seconds)
			defer func() { rand.Seed(time.Now().UnixNano()) }()
		case "burst":
			n := len(issued)
			for k := 0; k < burst; k++ {
				got := send("GET", start+"?provider="+url.QueryEscape(fc.Providers[0]))
				loc, err := url.Parse(got.Header.Get("Location"))
				if w.lastErr != nil || err != nil {
					return fail("initiation %d: %v, redirected to %q", k, w.lastErr, got.Header.Get("Location"))
				}
				issued = append(issued, loc.Query().Get("state"))
				expires[issued[len(issued)-1]] = vc.now + time.Duration(fc.TTL)*time.Second
			}
			if err := guessable(issued[n:], 40); err != nil {
				return fail("%w", err)
			}
			c.Class("burst")
		case "advance":
			vc.now += time.Duration(op.Seconds)*time.Second + time.Nanosecond
		case "initiate":
			vc.failAdd = nil
			if op.AddFail {
				vc.failAdd = errSource
			}
			q := ""
			if op.Provider != "" {
				q = "?provider=" + url.QueryEscape(op.Provider)
			}
			if op.Extra != "" {
				q += map[bool]string{true: "?", false: "&"}[q == ""] + op.Extra
			}
			got := send("GET", start+q)
			vc.failAdd = nil
			if err := idle(); err != nil {
				return fail("%w", err)
			}
			name := op.Provider
			if len(fc.Providers) == 1 {
				name = fc.Providers[0]
			}
			switch {
			case !known[name]:
				c.Class("initiate with an unknown provider")
				if err := badRequest(); err != nil {
					return fail("%w", err)
				}
				continue
			case op.AddFail && !fc.NoCache:
				if w.lastErr == nil {
					return fail("the cache failed but the flow was initiated")
				}
				continue
			}
			want := fmt.Sprintf("%s|%s%s/%s|%v", name, site, callback, name, fc.Fetch)
			if w.lastErr != nil || got.Status != 302 || len(w.initiated) != 1 || !sameURI(w.initiated[0], want) {
				return fail("status %d, error %v, provider called with %v, want %s", got.Status, w.lastErr, w.initiated, want)
			}
			redirects[name] = strings.Split(w.initiated[0], "|")[1]
			loc, err := url.Parse(got.Header.Get("Location"))
			if err != nil || loc.Host != name+".test" {
				return fail("redirected to %q", got.Header.Get("Location"))
			}
			st := loc.Query().Get("state")
			if len(st) < 8 {
				return fail("the state is %q", st)
			}
			for _, s := range issued {
				if s == st {
					return fail("the state %q was issued before", st)
				}
			}
			issued = append(issued, st)
			expires[st] = vc.now + time.Duration(fc.TTL)*time.Second
			c.Class("initiated")
		case "authorize":
			v := url.Values{}
			st := ""
			if len(issued) > 0 {
				st = issued[len(issued)-1-op.Idx%len(issued)]
			}
			switch op.State {
			case stIssued:
				v.Set("state", st)
			case stMissing:
				st = ""
			case stEmpty:
				st = ""
				v.Set("state", "")
			case stForeign:
				st = "abcdefghijkl"
				v.Set("state", st)
			case stUpper:
				st = strings.ToUpper(st)
				v.Set("state", st)
			case stCut:
				st = st[:max(0, len(st)-1)]
				v.Set("state", st)
			case stLonger, stPrefixed, stSpaced, stPattern:
				st = []string{st + "x", "x" + st, st + " ", "*"}[op.State-stLonger]
				v.Set("state", st)
			case stOfParam:
				v.Set("State", st)
				st = ""
			}
			if op.Error != "" {
				v.Set("error", op.Error)
			}
			v.Set("code", string(op.Code))
			target := callback + "/" + url.PathEscape(op.Provider) + "?" + v.Encode()
			got := send("GET", target)
			limit, ok := expires[st]
			valid := fc.NoCache || ok && vc.now < limit
			again := presented[st]
			presented[st] = true
			switch {
			case !known[op.Provider]:
				c.Class("authorize with an unknown provider")
				if err := idle(); err != nil {
					return fail("%w", err)
				}
				if op.Error == "" && valid {
					if err := badRequest(); err != nil {
						return fail("%w", err)
					}
				} else if w.lastErr == nil {
					return fail("no error")
				}
				continue
			case op.Error != "" || !valid:
				if err := idle(); err != nil {
					return fail("state %q (issued %v at most %v, now %v): %w", st, issued, limit, vc.now, err)
				}
				if w.lastErr != gerr.ErrUnauthorizedRequest {
					return fail("the error is %v, want %v", w.lastErr, gerr.ErrUnauthorizedRequest)
				}
				c.ClassIf(ok && !valid, "expired state")
				c.ClassIf(!ok, "state that was not issued")
				if len(issued) > 0 {
					c.NonTrivial()
				}
				continue
			}
			if again && !fc.NoCache && w.lastErr == gerr.ErrUnauthorizedRequest {
				// whether a state can be used again is not specified
				if err := idle(); err != nil {
					return fail("%w", err)
				}
				continue
			}
			c.NonTrivial()
			want := fmt.Sprintf("%s|%s%s/%s|%q", op.Provider, site, callback, op.Provider, string(op.Code))
			if len(w.tokens) != 1 || !sameURI(w.tokens[0], want) {
				return fail("the token was requested with %v, want %s (error %v)", w.tokens, want, w.lastErr)
			}
			// the provider refuses any other redirect URI than the one of the initiation
			if p := strings.Split(w.tokens[0], "|"); redirects[op.Provider] != "" && redirects[op.Provider] != p[1] {
				return fail("the redirect URI of the token request is %q, the one of the initiation was %q", p[1], redirects[op.Provider])
			}
			if !w.ctxOK {
				return fail("the provider did not get the context of the request or the token")
			}
			switch {
			case op.TokenErr:
				c.Class("token error")
				if !errors.Is(w.lastErr, w.errT) || w.users+w.handled > 0 {
					return fail("the error is %v, want the provider's (%d users requested, handled %d times)", w.lastErr, w.users, w.handled)
				}
			case fc.Fetch && op.UserErr:
				c.Class("user error")
				if !errors.Is(w.lastErr, w.errU) || w.handled > 0 {
					return fail("the error is %v, want the provider's (handled %d times)", w.lastErr, w.handled)
				}
			default:
				c.Class("authorized")
				if w.lastErr != nil || w.handled != 1 || got.Status != 299 || got.Body != "done" {
					return fail("error %v, handled %d times, answered with %d %q", w.lastErr, w.handled, got.Status, got.Body)
				}
				if !reflect.DeepEqual(w.gotToken, w.token) {
					return fail("the handler finds the token %+v, want %+v", w.gotToken, w.token)
				}
				if w.gotToken.IsEmpty() != (w.token.AccessToken == "") || !oauth.GetAccessTokenFromContext(context.Background()).IsEmpty() {
					return fail("IsEmpty of the token %+v is %v", w.gotToken, w.gotToken.IsEmpty())
				}
				if !fc.Fetch {
					if w.users > 0 || w.gotUser != nil {
						return fail("the user was requested %d times, the principal is %v", w.users, w.gotUser)
					}
				} else if w.users != 1 || w.gotUser == nil || w.gotUser.Identity() != w.user.Identity() || w.gotUser.String() != (&w.user).String() || w.gotUser.HasRole("admin") != w.user.HasRole("admin") || w.gotUser.HasPermission(auth.Permission{Scope: "a/b", Access: auth.AccessRead}) != w.user.HasRole("admin") {
					return fail("the handler finds the principal %v, want %v (requested %d times)", w.gotUser, w.user, w.users)
				}
			}
		}
	}
	return nil
}

const burst = 512

// guessable reports tokens, at least burst of them, that repeat, whose characters carry (as
// the most frequent one of every position shows) less than bits of entropy altogether, or
// some of whose characters follow from another one.
func guessable(tokens []string, bits float64) error {
	seen := map[string]bool{}
	width := 0
	for _, t := range tokens {
		if seen[t] {
			return fmt.Errorf("%q was issued twice", t)
		}
		seen[t] = true
		width = max(width, len(t))
	}
	at := func(t string, i int) int {
		if i < len(t) {
			return int(t[i])
		}
		return 256
	}
	n := float64(len(tokens))
	sum := 0.0
	distinct := make([]int, width)
	for i := range distinct {
		count := map[int]int{}
		top := 0
		for _, t := range tokens {
			count[at(t, i)]++
			top = max(top, count[at(t, i)])
		}
		distinct[i] = len(count)
		sum += math.Log2(n / float64(top))
	}
	if sum < bits {
		return fmt.Errorf("%d tokens such as %q have %.0f bits of entropy, want at least %.0f", len(tokens), tokens[0], sum, bits)
	}
	for i := range distinct {
		for j := range i {
			if distinct[i] < 3 || distinct[j] < 3 {
				continue
			}
			pairs := map[int]bool{}
			for _, t := range tokens {
				pairs[at(t, i)<<9|at(t, j)] = true
			}
			if len(pairs) <= 2*max(distinct[i], distinct[j]) {
				return fmt.Errorf("in %d tokens such as %q the characters %d and %d depend on each other", len(tokens), tokens[0], j, i)
			}
		}
	}
	return nil
}

func genFlow(t *rapid.T) flowCase {
	fc := flowCase{Fetch: rapid.Bool().Draw(t, "fetch"), NoCache: rapid.IntRange(0, 7).Draw(t, "nocache") == 7, TTL: rapid.SampledFrom([]int64{60, 600, 0, 90, 1}).Draw(t, "ttl"),
		Custom: rapid.Bool().Draw(t, "custom"), Prefix: rapid.SampledFrom([]string{"", "", "/api", "/api/v1", "/x/"}).Draw(t, "prefix"),
		Site: rapid.SampledFrom([]string{"", "", "", "http://localhost:8080", "https://site.test/app", "https://site.test/", "https://SITE.test"}).Draw(t, "site")}
	fc.Providers = append([]string(nil), []string{"github", "google", "p-3"}[:rapid.IntRange(1, 3).Draw(t, "nproviders")]...)
	name := func() string {
		return rapid.SampledFrom(append([]string{"", "unknown", "GitHub", "github2", "p-3"}, append(fc.Providers, append(fc.Providers, fc.Providers...)...)...)).Draw(t, "provider")
	}
	for n := several(t, 2, 12, 80, "nops"); n > 0; n-- {
		var op flowOp
		switch rapid.IntRange(0, 8).Draw(t, "op") {
		case 0, 1, 2:
			op = flowOp{Op: "initiate", Provider: name(), AddFail: rapid.IntRange(0, 9).Draw(t, "addfail") == 9}
			if rapid.IntRange(0, 3).Draw(t, "params") == 3 {
				op.Extra = rapid.SampledFrom([]string{"state=chosen-by-the-caller", "state=0123456789ab&state=x", "redirect_uri=https%3A%2F%2Fevil.test%2F", "error=access_denied", "code=c&state=chosen00", "scope=all&client_id=other", "returnTo=/x&_=1", "provider=unknown", "website_url=//evil.test"}).Draw(t, "extra")
				if op.Extra == "provider=unknown" && op.Provider == "" {
					op.Extra = ""
				}
			}
		case 3:
			op = flowOp{Op: "advance", Seconds: rapid.SampledFrom([]int64{1, 30, 59, 60, 75, 599, 1000}).Draw(t, "s")}
			if rare := rapid.IntRange(0, 99).Draw(t, "rare"); rare == 99 && rapid.IntRange(0, 3).Draw(t, "rarer") == 3 {
				op = flowOp{Op: "burst"}
			} else if rare > 60 {
				op = flowOp{Op: "seed", Seconds: 7}
			}
		default:
			op = flowOp{Op: "authorize", Provider: name(), Idx: rapid.IntRange(0, 2).Draw(t, "idx"), Code: Str(rapid.SampledFrom([]string{"code", "", "c%&=+ ü", "\xff"}).Draw(t, "code"))}
			if op.Provider == "" {
				op.Provider = "unknown"
			}
			if rapid.IntRange(0, 1).Draw(t, "badstate") == 1 {
				op.State = rapid.IntRange(0, stKinds-1).Draw(t, "state")
			}
			if rapid.IntRange(0, 5).Draw(t, "haserror") == 5 {
				op.Error = rapid.SampledFrom([]string{"access_denied", "0", " "}).Draw(t, "error")
			}
			op.Rich = max(0, rapid.IntRange(-4, 7).Draw(t, "rich"))
			op.TokenErr = rapid.IntRange(0, 5).Draw(t, "tokenerr") == 5
			op.UserErr = rapid.IntRange(0, 5).Draw(t, "usererr") == 5
		}
		fc.Ops = append(fc.Ops, op)
	}
	return fc
}

// ---- C39: provider answers ----

type answerCase struct {
	Google   bool   `json:"google"`
	User     bool   `json:"user"` // fetch the user instead of the token
	Status   int    `json:"status"`
	Raw      *Str   `json:"raw,omitempty"` // the body, if it is not Fields
	Fields   []jkv  `json:"fields,omitempty"`
	Pad      int    `json:"pad,omitempty"`
	Pieces   []int  `json:"pieces,omitempty"`
	ConnErr  bool   `json:"connErr,omitempty"`
	ReadErr  int    `json:"readErr,omitempty"` // the connection breaks after so many bytes, counted from 1
	Cancel   bool   `json:"cancel,omitempty"`
	Custom   bool   `json:"custom,omitempty"` // other endpoints
	Bad      bool   `json:"bad,omitempty"`    // the endpoint is malformed
	Id       string `json:"id"`
	Secret   string `json:"secret"`
	Code     string `json:"code"`
	Redirect string `json:"redirect"`
	Token    string `json:"token"`
}

type jkv struct {
	K string `json:"k"`
	V any    `json:"v"`
}

func (a answerCase) provider() oauth.Provider {
	if a.Google {
		return oauth.GoogleProvider{ClientId: a.Id, ClientSecret: a.Secret, Scopes: []string{"x"}}
	}
	return oauth.GitHubProvider{ClientId: a.Id, ClientSecret: a.Secret}
}

func (a answerCase) body() string {
	if a.Raw != nil {
		return string(*a.Raw)
	}
	m := map[string]any{}
	for _, f := range a.Fields {
		m[f.K] = f.V
	}
	b, _ := json.Marshal(m)
	if a.Pad > 0 && len(m) > 0 { // a large answer
		b = []byte(`{"a_padding":` + strconv.Quote(strings.Repeat("p", a.Pad)) + "," + string(b[1:]))
	}
	return string(b)
}

func (a answerCase) text(k string) string {
	s := ""
	for _, f := range a.Fields {
		if f.K == k {
			s, _ = f.V.(string)
		}
	}
	return s
}

func (a answerCase) number(k string) (n float64) {
	for _, f := range a.Fields {
		if f.K == k {
			n, _ = f.V.(float64)
		}
	}
	return
}

type roundTripper func(*http.Request) (*http.Response, error)

func (f roundTripper) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

// endpoints are the providers' own, unless the application sets others.
var endpoints = map[bool][3]*string{
	false: {&oauth.GitHubAuthorizeEndpoint, &oauth.GitHubAccessTokenEndpoint, &oauth.GitHubUserInfoEndpoint},
	true:  {&oauth.GoogleAuthorizeEndpoint, &oauth.GoogleAccessTokenEndpoint, &oauth.GoogleUserInfoEndpoint},
}

var publicEndpoints = map[bool][3]string{
	false: {"https://github.com/login/oauth/authorize", "https://github.com/login/oauth/access_token", "https://api.github.com/user"},
	true:  {"https://accounts.google.com/o/oauth2/v2/auth", "https://oauth2.googleapis.com/token", "https://www.googleapis.com/oauth2/v1/userinfo"},
}

var providerNames = map[bool]string{false: "github", true: "google"}

// customEndpoints points the provider to other endpoints (an enterprise installation, a
// test server), and returns the ones to expect and a function that undoes it.
func customEndpoints(google, custom bool) ([3]string, func()) {
	want := publicEndpoints[google]
	if !custom {
		return want, func() {}
	}
	var old [3]string
	for i, p := range endpoints[google] {
		old[i] = *p
		*p = fmt.Sprintf("http://%s.corp.test:81/e%d", providerNames[google], i)
		want[i] = *p
	}
	return want, func() {
		for i, p := range endpoints[google] {
			*p = old[i]
		}
	}
}

type closeCounter struct {
	io.Reader
	closed *int
}

func (b *closeCounter) Close() error { *b.closed++; return nil }

func runAnswer(c *Ctx, a answerCase) error {
	endpoint, restore := customEndpoints(a.Google, a.Custom || a.Bad)
	defer restore()
	if a.Bad {
		*endpoints[a.Google][1], *endpoints[a.Google][2] = "https://provider.test:port/token", "%zz"
	}
	var reqs []*http.Request
	var bodies []string
	closed, answers := 0, 0
	old := oauth.HttpClient.Transport
	defer func() { oauth.HttpClient.Transport = old }()
	oauth.HttpClient.Transport = roundTripper(func(r *http.Request) (*http.Response, error) {
		reqs = append(reqs, r)
		b := []byte(nil)
		if r.Body != nil {
			b, _ = io.ReadAll(r.Body)
			_ = r.Body.Close()
		}
		bodies = append(bodies, string(b))
		if a.ConnErr {
			return nil, errSource
		}
		if err := r.Context().Err(); err != nil {
			return nil, err
		}
		body, media := a.body(), "application/json"
		if acceptsJSON := strings.Contains(strings.ToLower(strings.Join(r.Header.Values("Accept"), ",")), "json"); r.Method == "POST" && !a.Google && !acceptsJSON {
			// this is what GitHub answers by default
			v := url.Values{}
			for _, f := range a.Fields {
				v.Set(f.K, fmt.Sprint(f.V))
			}
			body, media = v.Encode(), "application/x-www-form-urlencoded"
		}
		pr := &pieceReader{data: body, pieces: a.Pieces, err: io.EOF}
		if a.ReadErr > 0 && a.ReadErr <= len(body) {
			pr.data, pr.err = body[:a.ReadErr-1], errSource
		}
		answers++
		return &http.Response{StatusCode: a.Status, Status: strconv.Itoa(a.Status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
			Header: http.Header{"Content-Type": {media}}, Body: &closeCounter{Reader: pr, closed: &closed}, ContentLength: -1, Request: r}, nil
	})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if a.Cancel {
		cancel()
	}
	p := a.provider()
	broken := a.Bad || a.ConnErr || a.Cancel || a.Raw != nil || a.Status/100 != 2 || a.ReadErr > 0 && a.ReadErr <= len(a.body())
	var err error
	if !a.User {
		var tok oauth.AccessToken
		tok, err = p.FetchAccessToken(ctx, a.Redirect, a.Code)
		if a.text("access_token") == "" || a.text("token_type") == "" {
			broken = true
		} else if !broken {
			c.NonTrivial()
			c.Class("token")
			if err != nil {
				return fmt.Errorf("the token was not accepted: %v", err)
			}
			sep, refresh, life := ",", "", 0
			if a.Google {
				sep, refresh, life = " ", a.text("refresh_token"), int(a.number("expires_in"))
			}
			var scopes []string
			if s := a.text("scope"); s != "" {
				scopes = strings.Split(s, sep)
			}
			got := tok.Scopes
			if len(got) == 1 && got[0] == "" {
				got = nil
			}
			if tok.AccessToken != a.text("access_token") || tok.TokenType != a.text("token_type") || len(got) != len(scopes) || len(scopes) > 0 && !reflect.DeepEqual(got, scopes) {
				return fmt.Errorf("the token is %+v", tok)
			}
			if a.Google && (tok.RefreshToken != refresh || tok.ExpiresInSeconds != life) {
				return fmt.Errorf("the token is %+v, want the refresh token %q and lifetime %d", tok, refresh, life)
			}
		}
		if broken && err == nil {
			return fmt.Errorf("there was no error but the token %+v", tok)
		}
	} else {
		var u auth.User
		u, err = p.FetchAuthenticatedUser(ctx, oauth.AccessToken{AccessToken: a.Token, TokenType: "bearer"})
		id := a.text("email")
		if id == "" {
			id = a.text(map[bool]string{true: "id", false: "login"}[a.Google])
		}
		if id == "" {
			broken = true
		} else if !broken {
			c.NonTrivial()
			c.Class("user")
			if err != nil {
				return fmt.Errorf("the user was not accepted: %v", err)
			}
			if u.Id != id || u.Name != a.text("name") || u.IdentityPlatform != providerNames[a.Google] || len(u.Groups) > 0 {
				return fmt.Errorf("the user is %+v, want the id %q of %s", u, id, providerNames[a.Google])
			}
		}
		if broken && err == nil {
			return fmt.Errorf("there was no error but the user %+v", u)
		}
	}
	c.ClassIf(broken, "error")
	if a.Bad {
		c.Class("malformed endpoint")
		if len(reqs) > 0 || err == nil {
			return fmt.Errorf("%d requests were sent to a malformed endpoint (error %v)", len(reqs), err)
		}
		return nil
	}
	if closed < answers {
		return fmt.Errorf("the body of the answer is left open")
	}
	// the request
	if len(reqs) == 0 && a.Cancel {
		return nil
	}
	if len(reqs) != 1 {
		return fmt.Errorf("%d requests were sent", len(reqs))
	}
	r, at := reqs[0], 1
	if accepts := r.Header.Values("Accept"); !strings.Contains(strings.ToLower(strings.Join(accepts, ",")), "json") {
		return fmt.Errorf("%s %s does not ask for JSON: Accept is %q", r.Method, r.URL, accepts)
	}
	if a.User {
		at = 2
	}
	if want := endpoint[at]; r.URL.String() != want {
		return fmt.Errorf("the request was sent to %s, want %s", r.URL, want)
	}
	if a.User {
		if got := r.Header.Get("Authorization"); r.Method != "GET" || got != "Bearer "+a.Token {
			return fmt.Errorf("%s with the authorization %q, the token is %q", r.Method, got, a.Token)
		}
		return nil
	}
	want := map[string]string{"client_id": a.Id, "client_secret": a.Secret, "code": a.Code}
	got := map[string]string{}
	if a.Google {
		want["redirect_uri"] = a.Redirect
		want["grant_type"] = "authorization_code"
	}
	if json.Unmarshal([]byte(bodies[0]), &got) != nil {
		v, err := url.ParseQuery(bodies[0])
		if err != nil {
			return fmt.Errorf("the request body is %q", bodies[0])
		}
		got = map[string]string{}
		for k := range v {
			got[k] = v.Get(k)
		}
	}
	if media := r.Header.Get("Content-Type"); a.Google && !strings.HasPrefix(media, map[bool]string{true: "application/json", false: "application/x-www-form-urlencoded"}[strings.HasPrefix(bodies[0], "{")]) {
		return fmt.Errorf("the body %q was sent as %q", bodies[0], media)
	}
	for k, v := range want {
		if g, ok := got[k]; r.Method != "POST" || !ok || g != v {
			return fmt.Errorf("%s with the body %q, %s should be %q", r.Method, bodies[0], k, v)
		}
	}
	return nil
}

var credentials = []string{"id-1", "", "a&b=c", "with space+plus", "\"quoted\"", "ü日本", "%41", "Me@X.Test", "<x>", "a;b#c?d"}

func genAnswer(t *rapid.T) answerCase {
	cred := func(l string) string { return rapid.SampledFrom(credentials).Draw(t, l) }
	a := answerCase{Google: rapid.Bool().Draw(t, "google"), User: rapid.Bool().Draw(t, "user"), Status: 200,
		Id: cred("id"), Secret: cred("secret"), Code: cred("code"), Redirect: cred("redirect"), Token: rapid.SampledFrom([]string{"tok", "a.b-c_d~+/=", "with space in"}).Draw(t, "token")}
	a.Bad = rapid.IntRange(0, 30).Draw(t, "bad") == 30
	if rapid.IntRange(0, 3).Draw(t, "badstatus") == 3 {
		a.Status = rapid.SampledFrom([]int{201, 204, 299, 300, 304, 400, 401, 403, 404, 422, 429, 500, 502, 503}).Draw(t, "status")
	}
	a.Custom = rapid.IntRange(0, 3).Draw(t, "custom") == 3
	a.Pieces = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 7, 100}), 0, 3).Draw(t, "pieces")
	if rapid.IntRange(0, 9).Draw(t, "large") == 9 {
		a.Pad = rapid.SampledFrom([]int{1000, 5000, 20000, 70000, 1100000}).Draw(t, "pad")
		a.Pieces = nil
	}
	switch rapid.IntRange(0, 9).Draw(t, "fault") {
	case 0:
		a.ConnErr = true
	case 1:
		a.ReadErr = rapid.IntRange(1, 60).Draw(t, "readerr")
	case 2:
		a.Cancel = true
	case 3:
		raw := Str(rapid.SampledFrom([]string{"", "null", "[]", "[{\"access_token\":\"x\",\"token_type\":\"y\",\"email\":\"z\"}]", "\"text\"", "42", "{", "{\"access_token\":\"x\",", "<html>502</html>", "access_token=x&token_type=bearer", "{\"access_token\": x}", "\x00\xff", "true", "{}", strings.Repeat("[", 20000), "{\"email\":\"z\" \"login\":\"x\"}"}).Draw(t, "raw"))
		a.Raw = &raw
		return a
	}
	val := func(ok ...any) any {
		if rapid.IntRange(0, 3).Draw(t, "oddtype") == 3 {
			ok = []any{nil, 42.0, true, "", map[string]any{"a": "b"}, []any{"x"}, -1.5, 1e9}
		}
		return rapid.SampledFrom(ok).Draw(t, "v")
	}
	add := func(k string, ok ...any) {
		if rapid.IntRange(0, 5).Draw(t, "miss"+k) < 5 {
			a.Fields = append(a.Fields, jkv{k, val(ok...)})
		}
	}
	if a.User {
		add("email", "me@x.test", "ü@日本.test", "me", "Me@X.test", " me@x.test")
		add("login", "me", "other name")
		add("id", "123", "456")
		add("name", "My Name", "日本", "me@x.test", "me", "123", "")
	} else {
		add("access_token", "tok", "a.b/c+d=", "日本")
		add("token_type", "bearer", "Bearer")
		add("scope", "user", "user,repo", "a b c", "user, x", "user,", ",,", "a,,b", "a  b", " ")
		add("refresh_token", "refresh", "1//r")
		add("expires_in", 3600.0, 0.0, 1.0, 1e9, 2147483648.0, 1e10, 31536000.0)
	}
	if a.Status/100 != 2 || rapid.IntRange(0, 9).Draw(t, "errfield") == 9 {
		add("error", "bad_verification_code", map[string]any{"message": "m"}, map[string]any{"code": 4.0}, nil)
		add("error_description", "The code is wrong")
	}
	return a
}

// ---- C40: the initiate URL ----

type initCase struct {
	Google  bool     `json:"google"`
	Id      string   `json:"id"`
	Secret  string   `json:"secret"`
	Login   string   `json:"login"`
	Flag    bool     `json:"flag"`  // AllowSignup or AccessTypeOffline
	Flag2   bool     `json:"flag2"` // IncludeGrantedScopes
	Scopes  []string `json:"scopes"`
	Spare   int      `json:"spare"` // spare capacity of the scopes
	Prompts []string `json:"prompts,omitempty"`
	Prefix  string   `json:"prefix"`
	Custom  bool     `json:"custom,omitempty"` // other endpoints
	Calls   []struct {
		Mux      bool   `json:"mux"`
		User     bool   `json:"user"`
		Redirect string `json:"redirect"`
		State    string `json:"state"`
	} `json:"calls"`
}

func runInitiate(c *Ctx, ic initCase) error {
	endpoint, restore := customEndpoints(ic.Google, ic.Custom)
	defer restore()
	backing := make([]string, len(ic.Scopes)+ic.Spare)
	for i := range backing {
		backing[i] = fmt.Sprint("spare", i)
	}
	copy(backing, ic.Scopes)
	before := append([]string(nil), backing...)
	scopes := backing[:len(ic.Scopes)]
	prompts := append([]string(nil), ic.Prompts...)
	userScopes, gUserScopes := []string{"user"}, []string{"openid", "https://www.googleapis.com/auth/userinfo.email", "https://www.googleapis.com/auth/userinfo.profile"}
	extra := userScopes
	var p oauth.Provider
	if ic.Google {
		p = oauth.GoogleProvider{ClientId: ic.Id, ClientSecret: ic.Secret, Scopes: scopes, AccessTypeOffline: ic.Flag, IncludeGrantedScopes: ic.Flag2, LoginHint: ic.Login, Prompts: prompts}
		extra = gUserScopes
	} else {
		p = oauth.GitHubProvider{ClientId: ic.Id, ClientSecret: ic.Secret, Login: ic.Login, AllowSignup: ic.Flag, Scopes: scopes}
	}
	muxes := map[bool]http.Handler{}
	for _, user := range []bool{false, true} {
		m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}})
		if err != nil {
			return err
		}
		m.RouteUsingPathPrefix(ic.Prefix).HandleOAUTH2(oauth.Config{WebsiteUrl: "https://site.test", FetchUserDetails: user, Providers: []oauth.Provider{p}},
			func(context.Context, path.MatchingContext) (response.HttpResponse, error) { return nil, errSource }, nil, nil)
		muxes[user] = m
	}
	states := map[string]bool{}
	for i, call := range ic.Calls {
		var got, redirect, state string
		if call.Mux {
			rec := httptest.NewRecorder()
			muxes[call.User].ServeHTTP(rec, testReq("GET", ic.Prefix+"/oauth/initiate", nil))
			if rec.Code != 302 {
				return fmt.Errorf("call %d: the initiate endpoint answers %d", i, rec.Code)
			}
			got, redirect = rec.Header().Get("Location"), "https://site.test"+ic.Prefix+"/oauth/authorize/"+providerNames[ic.Google]
		} else {
			got, redirect, state = p.InitiateUrl(call.Redirect, call.State, call.User), call.Redirect, call.State
		}
		u, err := url.Parse(got)
		if err != nil {
			return fmt.Errorf("call %d: %q is not a URL: %v", i, got, err)
		}
		base, _ := url.Parse(endpoint[0])
		if u.Scheme != base.Scheme || u.Host != base.Host || u.Path != base.Path {
			return fmt.Errorf("call %d: redirected to %s, want %s", i, got, base)
		}
		q, err := url.ParseQuery(u.RawQuery)
		if err != nil {
			return fmt.Errorf("call %d: the parameters of %s do not decode: %v", i, got, err)
		}
		if call.Mux {
			state = q.Get("state")
			if len(state) < 8 || states[state] {
				return fmt.Errorf("call %d: the state %q is empty or not new", i, state)
			}
			states[state] = true
		}
		want := map[string]string{"client_id": ic.Id, "redirect_uri": redirect, "state": state}
		optional := map[string]string{}
		if ic.Google {
			want["response_type"] = "code"
			optional["include_granted_scopes"] = strconv.FormatBool(ic.Flag2)
			if ic.Flag2 {
				want["include_granted_scopes"] = "true"
			}
			if ic.Flag {
				want["access_type"] = "offline"
			} else {
				optional["access_type"] = "online"
			}
			if ic.Login != "" {
				want["login_hint"] = ic.Login
			}
			if len(ic.Prompts) > 0 {
				want["prompt"] = strings.Join(ic.Prompts, " ")
			}
		} else {
			want["allow_signup"] = strconv.FormatBool(ic.Flag)
			if ic.Login != "" {
				want["login"] = ic.Login
			}
		}
		for k, v := range want {
			if len(q[k]) != 1 || q[k][0] != v {
				return fmt.Errorf("call %d: the parameter %s of %s is %q, want %q", i, k, got, q[k], v)
			}
		}
		for k, v := range q {
			if _, ok := want[k]; ok || k == "scope" || optional[k] == v[0] {
				continue
			}
			return fmt.Errorf("call %d: the parameter %s of %s is %q but nothing of it is configured", i, k, got, v)
		}
		wantScopes := map[string]bool{}
		for _, s := range ic.Scopes {
			wantScopes[s] = true
		}
		if call.User {
			for _, s := range extra {
				wantScopes[s] = true
			}
		}
		gotScopes := map[string]bool{}
		for _, s := range strings.Fields(q.Get("scope")) {
			gotScopes[s] = true
		}
		if !reflect.DeepEqual(gotScopes, wantScopes) {
			return fmt.Errorf("call %d: the scopes are %q, want %v", i, q.Get("scope"), sortedKeys(wantScopes))
		}
		if strings.Contains(got, ic.Secret) && ic.Secret != "" {
			return fmt.Errorf("call %d: %s contains the client secret", i, got)
		}
		if fmt.Sprintf("%q", backing) != fmt.Sprintf("%q", before) || fmt.Sprintf("%q", prompts) != fmt.Sprintf("%q", ic.Prompts) ||
			!reflect.DeepEqual(userScopes, oauth.GitHubUserInfoProfileScopes) || !reflect.DeepEqual(gUserScopes, oauth.GoogleUserInfoScopes) {
			return fmt.Errorf("call %d: the configuration was changed: scopes %q, were %q", i, backing, before)
		}
	}
	if len(ic.Calls) > 1 && len(ic.Scopes) > 0 {
		c.NonTrivial()
	}
	c.ClassIf(ic.Spare > 0, "scopes with spare capacity")
	c.ClassIf(len(ic.Scopes) == 0, "no scopes")
	return nil
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func genInitiate(t *rapid.T) initCase {
	cred := func(l string) string { return rapid.SampledFrom(credentials).Draw(t, l) }
	ic := initCase{Google: rapid.Bool().Draw(t, "google"), Id: cred("id"), Secret: rapid.SampledFrom([]string{"", "TOPSECRET", "SECRET&2"}).Draw(t, "secret"), Login: cred("login"), Flag: rapid.Bool().Draw(t, "flag"), Flag2: rapid.Bool().Draw(t, "flag2"),
		Scopes: rapid.SliceOfN(rapid.SampledFrom([]string{"repo", "user", "openid", "https://x.test/auth/y", "read:user", "ü&=", "gist"}), 0, several(t, 4, 4, 40, "most scopes")).Draw(t, "scopes"), Spare: rapid.IntRange(0, 4).Draw(t, "spare"),
		Prefix: rapid.SampledFrom([]string{"", "/api", "/a/b"}).Draw(t, "prefix")}
	ic.Custom = rapid.IntRange(0, 3).Draw(t, "custom") == 3
	if ic.Google {
		ic.Prompts = rapid.SliceOfN(rapid.SampledFrom([]string{"none", "consent", "select_account"}), 0, 3).Draw(t, "prompts")
	}
	n := several(t, 1, 4, 20, "ncalls")
	for ; n > 0; n-- {
		var call = struct {
			Mux      bool   `json:"mux"`
			User     bool   `json:"user"`
			Redirect string `json:"redirect"`
			State    string `json:"state"`
		}{rapid.Bool().Draw(t, "mux"), rapid.Bool().Draw(t, "user"), "https://site.test/cb?x=" + cred("redirect"), cred("state")}
		ic.Calls = append(ic.Calls, call)
	}
	return ic
}

func init() {
	register("C38", "Histories of 2-12 operations over 1-3 providers behind the default or custom paths and a path prefix: initiate (known, unknown or no provider, failing cache), the clock advances, authorize with issued, expired, foreign, altered, misnamed, empty or missing states, error parameters, any code, known and unknown providers that fail to give a token or user. Non-trivial: a callback that reaches the provider, or is refused after a state was issued.",
		12000, 250000, genFlow, runFlow)
	register("C39", "Answers of the GitHub and Google token and user endpoints: statuses of all classes, JSON objects whose members are missing or of any type, other JSON, other text, bodies in pieces, connections that fail before or within the body, cancelled contexts; credentials, codes and tokens with special characters. Non-trivial: an answer that has to give a token or user.",
		20000, 400000, genAnswer, runAnswer)
	register("C40", "GitHub and Google configurations with any credentials, optional parameters and 0-4 scopes in a slice with 0-4 spare places, and 1-4 calls of InitiateUrl or the initiate endpoint with and without user details. Non-trivial: several calls with scopes.",
		15000, 300000, genInitiate, runInitiate)
}
