package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/auth/oauth"
	"github.com/ixtendio/gofre/cache"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"pgregory.net/rapid"
)

// ---- C47: concurrent logins ----

type login struct {
	Google bool `json:"google,omitempty"`
	Fail   int  `json:"fail,omitempty"` // 1 no token for the code, 2 no user, 3 a foreign state, 4 no callback at all
	Spin   int  `json:"spin,omitempty"` // between the steps
	G      int  `json:"g"`
}

type loginCase struct {
	Both   bool    `json:"both"`  // both providers, otherwise GitHub only
	User   bool    `json:"user"`  // with user details
	Cache  bool    `json:"cache"` // states are remembered
	Spare  int     `json:"spare"` // places behind the configured scopes
	Prefix string  `json:"prefix"`
	Logins []login `json:"logins"`
}

func runLogins(c *Ctx, lc loginCase) error {
	old := oauth.HttpClient.Transport
	defer func() { oauth.HttpClient.Transport = old }()
	var unexpected sync.Map
	oauth.HttpClient.Transport = roundTripper(func(r *http.Request) (*http.Response, error) {
		answer := func(status int, body string) (*http.Response, error) {
			return &http.Response{StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {"application/json"}},
				Body: io.NopCloser(strings.NewReader(body)), ContentLength: -1, Request: r}, nil
		}
		google := strings.Contains(r.URL.Host, "google")
		endpoint := r.URL.Scheme + "://" + r.URL.Host + r.URL.Path
		switch endpoint {
		case publicEndpoints[google][1]:
			b, _ := io.ReadAll(r.Body)
			v, _ := url.ParseQuery(string(b))
			if members := map[string]string{}; json.Unmarshal(b, &members) == nil {
				v = url.Values{}
				for k, x := range members {
					v.Set(k, x)
				}
			}
			code := v.Get("code")
			if want := "id-" + providerNames[google]; v.Get("client_id") != want || v.Get("client_secret") != "secret-"+providerNames[google] {
				unexpected.Store(fmt.Sprintf("credentials %q sent to %s", b, endpoint), true)
			}
			runtime.Gosched()
			if strings.HasSuffix(code, "fail1") {
				return answer(400, `{"error":"bad_verification_code"}`)
			}
			return answer(200, fmt.Sprintf(`{"access_token":"token of %s at %s","token_type":"bearer","scope":"a"}`, code, providerNames[google]))
		case publicEndpoints[google][2]:
			token := strings.TrimPrefix(r.Header.Get("Authorization"), "Bearer ")
			runtime.Gosched()
			if strings.Contains(token, "fail2") {
				return answer(500, "{}")
			}
			return answer(200, fmt.Sprintf(`{"email":"mail of %s","login":"x","id":"1","name":"name of %s"}`, token, token))
		}
		unexpected.Store("request to "+endpoint, true)
		return answer(404, "")
	})
	scopes := func() ([]string, []string) {
		backing := make([]string, 2+lc.Spare)
		for i := range backing {
			backing[i] = fmt.Sprint("scope", i)
		}
		return backing[:2], backing
	}
	s1, b1 := scopes()
	s2, b2 := scopes()
	before := fmt.Sprint(b1, b2)
	conf := oauth.Config{WebsiteUrl: "https://site.test", FetchUserDetails: lc.User, Providers: []oauth.Provider{oauth.GitHubProvider{ClientId: "id-github", ClientSecret: "secret-github", Scopes: s1}}}
	if lc.Both {
		conf.Providers = append(conf.Providers, oauth.GoogleProvider{ClientId: "id-google", ClientSecret: "secret-google", Scopes: s2, Prompts: []string{"consent"}})
	}
	if lc.Cache {
		conf.CacheConfig = oauth.CacheConfig{Cache: cache.NewInMemory(), KeyExpirationTime: time.Hour}
	}
	top, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(error) {}})
	if err != nil {
		return err
	}
	m := top.RouteUsingPathPrefix(lc.Prefix)
	type whoKey struct{}
	m.HandleOAUTH2(conf, func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		runtime.Gosched()
		who := "nobody"
		if p := auth.GetSecurityPrincipalFromContext(ctx); p != nil {
			who = p.Identity()
		}
		return response.PlainTextHttpResponseOK(fmt.Sprintf("%v|%s|%s|%s", ctx.Value(whoKey{}), oauth.GetAccessTokenFromContext(ctx).AccessToken, who, mc.PathVar("providerName"))), nil
	}, nil, nil)
	prefix := strings.TrimSuffix(lc.Prefix, "/")
	var mu sync.Mutex
	var first error
	states := map[string]int{}
	fail := func(i int, format string, args ...any) {
		mu.Lock()
		defer mu.Unlock()
		if first == nil {
			first = fmt.Errorf("login %d of %d: %s", i, len(lc.Logins), fmt.Sprintf(format, args...))
		}
	}
	get := func(i int, target string) *httptest.ResponseRecorder {
		rec := httptest.NewRecorder()
		r := testReq("GET", prefix+target, nil)
		top.ServeHTTP(rec, r.WithContext(context.WithValue(r.Context(), whoKey{}, i)))
		return rec
	}
	one := func(i int) {
		l := lc.Logins[i]
		name := providerNames[l.Google && lc.Both]
		wait := func() {
			for n := 0; n < l.Spin; n++ {
				runtime.Gosched()
			}
		}
		rec := get(i, "/oauth/initiate?provider="+name)
		u, err := url.Parse(rec.Header().Get("Location"))
		if rec.Code != 302 || err != nil {
			fail(i, "the initiate endpoint answers %d, %q", rec.Code, rec.Header().Get("Location"))
			return
		}
		q := u.Query()
		state := q.Get("state")
		want := append([]string{}, s1...)
		if lc.User && name == "github" {
			want = append(want, "user")
		} else if lc.User {
			want = append(want, "openid", "https://www.googleapis.com/auth/userinfo.email", "https://www.googleapis.com/auth/userinfo.profile")
		}
		got := strings.Fields(q.Get("scope"))
		sort.Strings(got)
		sort.Strings(want)
		if q.Get("client_id") != "id-"+name || q.Get("redirect_uri") != "https://site.test"+prefix+"/oauth/authorize/"+name || !reflect.DeepEqual(got, want) {
			fail(i, "redirected to %s", u)
			return
		}
		mu.Lock()
		if other, ok := states[state]; ok || state == "" {
			if first == nil {
				first = fmt.Errorf("login %d has the state %q, so has login %d", i, state, other)
			}
		}
		states[state] = i
		mu.Unlock()
		wait()
		code := fmt.Sprintf("code%d", i)
		wantCode := 200
		switch l.Fail {
		case 1:
			code += "fail1"
			wantCode = 500
		case 2:
			code += "fail2"
			if lc.User {
				wantCode = 500
			}
		case 3:
			if lc.Cache {
				state += "x"
				wantCode = 500
			}
		case 4:
			return
		}
		rec = get(i, "/oauth/authorize/"+name+"?"+url.Values{"state": {state}, "code": {code}}.Encode())
		token := fmt.Sprintf("token of %s at %s", code, name)
		who := "nobody"
		if lc.User {
			who = "mail of " + token
		}
		if wantCode == 500 {
			if rec.Code != 500 || rec.Body.Len() > 0 {
				fail(i, "has to be refused, but is answered with %d %q", rec.Code, rec.Body)
			}
			return
		}
		if text := fmt.Sprintf("%d|%s|%s|%s", i, token, who, name); rec.Code != 200 || rec.Body.String() != text {
			fail(i, "the handler answers %d %q, want %q", rec.Code, rec.Body, text)
		}
	}
	groups := map[int][]int{}
	for i, l := range lc.Logins {
		groups[l.G] = append(groups[l.G], i)
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, g := range groups {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					fail(g[0], "panic: %v", x)
				}
			}()
			<-start
			for _, i := range g {
				one(i)
			}
		}()
	}
	close(start)
	wg.Wait()
	if first != nil {
		return first
	}
	unexpected.Range(func(k, _ any) bool {
		err = fmt.Errorf("%v", k)
		return false
	})
	if err != nil {
		return err
	}
	if after := fmt.Sprint(b1, b2); after != before {
		return fmt.Errorf("the configured scopes became %s", after)
	}
	if len(groups) > 1 {
		c.NonTrivial()
	}
	c.ClassIf(lc.Both, "both providers")
	c.ClassIf(lc.User, "with user details")
	for _, l := range lc.Logins {
		c.ClassIf(l.Fail > 0 && l.Fail < 4, "failing login")
	}
	return nil
}

func genLogins(t *rapid.T) loginCase {
	lc := loginCase{Both: rapid.Bool().Draw(t, "both"), User: rapid.IntRange(0, 2).Draw(t, "user") > 0, Cache: rapid.IntRange(0, 2).Draw(t, "cache") > 0, Spare: rapid.IntRange(0, 4).Draw(t, "spare"),
		Prefix: rapid.SampledFrom([]string{"", "/api", "/a/b/"}).Draw(t, "prefix")}
	gs := rapid.IntRange(2, 8).Draw(t, "goroutines")
	for n := several(t, 2, 16, 60, "nlogins"); n > 0; n-- {
		l := login{Google: rapid.Bool().Draw(t, "google"), Spin: rapid.IntRange(0, 3).Draw(t, "spin"), G: len(lc.Logins) % gs}
		if f := rapid.IntRange(0, 9).Draw(t, "fail"); f < 5 {
			l.Fail = f
		}
		lc.Logins = append(lc.Logins, l)
	}
	return lc
}

func init() {
	register("C47", "2-16 logins in 2-8 goroutines through one mux with GitHub, or GitHub and Google, whose scopes have 0-4 spare places, with and without user details and a cache of states; some fail at the token, the user or the state, some never come back; under the race detector. Non-trivial: at least two goroutines.",
		1500, 20000, genLogins, runLogins)
}
