package main

import (
	"context"
	"crypto/tls"
	stderrors "errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"slices"
	"strconv"
	"strings"

	"github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"pgregory.net/rapid"
)

type corsConf struct {
	Any     bool     `json:"any"`
	Creds   bool     `json:"creds"`
	MaxAge  int      `json:"maxAge"`
	Expose  []string `json:"expose"`
	Methods []string `json:"methods"`
	Headers []string `json:"headers"`
	Origins []string `json:"origins"`
}

func (c corsConf) real() middleware.CorsConfig {
	return middleware.CorsConfig{AnyOriginAllowed: c.Any, SupportsCredentials: c.Creds, PreflightMaxAgeSeconds: c.MaxAge,
		ExposedHeaders: c.Expose, AllowedHttpMethods: c.Methods, AllowedHttpHeaders: c.Headers, AllowedOrigins: c.Origins}
}

type corsReq struct {
	Method string  `json:"m"`
	Host   string  `json:"host"`
	TLS    bool    `json:"tls"`
	Dup    bool    `json:"dup,omitempty"`       // the Origin header comes twice
	AbsURL bool    `json:"abs"`                 // absolute-form request target
	Auth   bool    `json:"authority,omitempty"` // authority-form request target, as of CONNECT
	WS     bool    `json:"ws,omitempty"`        // with ws or wss as its scheme
	Origin *string `json:"origin"`
	ACRM   *string `json:"acrm"`
	ACRH   *string `json:"acrh"`
	CType  *string `json:"ctype"`
}

type corsCase struct {
	Conf   corsConf          `json:"conf"`
	Reqs   []corsReq         `json:"reqs"`
	Vary   *string           `json:"vary"` // Vary of the wrapped response
	Own    map[string]string `json:"own"`  // other headers of the wrapped response
	Status int               `json:"status"`
	Body   Str               `json:"body"`
	Fails  bool              `json:"fails"` // the handler fails
}

func (q corsReq) real() *http.Request {
	r := newReq(q.Method, "/res")
	r.Host = q.Host
	if q.TLS {
		r.TLS = &tls.ConnectionState{}
	}
	if q.AbsURL {
		scheme := "http"
		if q.TLS {
			scheme = "https"
		}
		if q.WS {
			scheme = strings.Replace(scheme, "http", "ws", 1)
		}
		r.URL = &url.URL{Scheme: scheme, Host: q.Host, Path: "/res"}
		r.RequestURI = r.URL.String()
	}
	if q.Auth {
		r.URL = &url.URL{Host: q.Host}
		r.RequestURI = q.Host
	}
	set := func(k string, v *string) {
		if v != nil {
			r.Header[k] = []string{*v}
		}
	}
	set("Origin", q.Origin)
	if q.Dup && q.Origin != nil {
		r.Header["Origin"] = []string{*q.Origin, *q.Origin}
	}
	set("Access-Control-Request-Method", q.ACRM)
	set("Access-Control-Request-Headers", q.ACRH)
	set("Content-Type", q.CType)
	return r
}

// validOrigins and invalidOrigins are the origins the generator uses, so that
// validity needs no second parser.
var validOrigins = []string{"https://domain.com", "http://domain.com", "https://sub.domain.com", "https://domain.com:443", "http://domain.com:80",
	"http://domain.com:8080", "https://domain.com:8443", "http://localhost:3000", "null", "file://", "file:///x", "http://[::1]:8080", "http://[::1]",
	"https://DOMAIN.com", "https://domain.com.evil.org", "https://evil-domain.com", "https://domain.co", "http://evil.org:80", "https://domain.com:80", "http://domain.com:443"}
var invalidOrigins = []string{"", "domain.com", "/path", "https://dom%61in.com", "https://domain.com/%41", "https://domain.com?%41", "not an origin", "://domain.com", "%", "*", "null "}

func isInvalid(o string) bool {
	for _, x := range invalidOrigins {
		if x == o {
			return true
		}
	}
	return false
}

// sameOrigin: scheme, host and port (the scheme's default one may be left out on either side).
func (q corsReq) sameOrigin(o string) bool {
	scheme, def := "http", "80"
	if q.TLS {
		scheme, def = "https", "443"
	}
	if q.AbsURL && q.WS && q.Host != "" {
		scheme = strings.Replace(scheme, "http", "ws", 1)
	}
	if q.Host == "" {
		return false
	}
	host, port := q.Host, def
	if i := strings.LastIndexByte(q.Host, ':'); i >= 0 && !strings.HasSuffix(q.Host, "]") {
		host, port = q.Host[:i], q.Host[i+1:]
	}
	return o == scheme+"://"+host+":"+port || port == def && o == scheme+"://"+host
}

// decide is the documented decision: admitted or not, and what kind of request it is.
func (c corsConf) decide(q corsReq) (admit bool, kind string) {
	if q.Origin == nil {
		return true, "no origin"
	}
	o := *q.Origin
	if isInvalid(o) {
		return false, "invalid origin"
	}
	if q.sameOrigin(o) {
		return true, "same origin"
	}
	okOrigin := c.Any
	for _, a := range c.Origins {
		okOrigin = okOrigin || a == o
	}
	allowed := func(list []string, v string) bool {
		for _, a := range list {
			if strings.EqualFold(a, v) {
				return true
			}
		}
		return false
	}
	if q.Method == "OPTIONS" && q.ACRM != nil {
		m := strings.TrimSpace(*q.ACRM)
		if m == "" || !okOrigin || !allowed(c.Methods, m) {
			return false, "preflight"
		}
		if q.ACRH != nil {
			for _, h := range strings.Split(*q.ACRH, ",") {
				if h = strings.TrimSpace(h); h != "" && !allowed(c.Headers, h) {
					return false, "preflight"
				}
			}
		}
		return true, "preflight"
	}
	if q.Method == "POST" {
		ct := ""
		if q.CType != nil {
			ct = strings.TrimSpace(strings.SplitN(*q.CType, ";", 2)[0])
		}
		if ct == "" {
			return false, "post without media type"
		}
	}
	return okOrigin && allowed(c.Methods, q.Method), "cross-origin " + q.Method
}

func splitList(v string) []string {
	var out []string
	for _, x := range strings.Split(v, ",") {
		if x = strings.TrimSpace(x); x != "" {
			out = append(out, x)
		}
	}
	return out
}

// checkCorsHeaders compares the headers of an admitted response with the configuration.
func (c corsConf) checkHeaders(q corsReq, h http.Header, ownVary *string) error {
	origin := ""
	if q.Origin != nil {
		origin = *q.Origin
	}
	one := func(name, want string) error {
		got := h[http.CanonicalHeaderKey(name)]
		if want == "" {
			if len(got) > 1 || len(got) == 1 && got[0] != "" {
				return fmt.Errorf("%s is %q, want none", name, got)
			}
			return nil
		}
		if len(got) != 1 || got[0] != want {
			return fmt.Errorf("%s is %q, want %q", name, got, want)
		}
		return nil
	}
	list := func(name string, want []string) error {
		got := h[http.CanonicalHeaderKey(name)]
		if len(want) == 0 {
			if len(got) != 0 {
				return fmt.Errorf("%s is %q, want none", name, got)
			}
			return nil
		}
		if len(got) != 1 || strings.Join(splitList(got[0]), ",") != strings.Join(want, ",") {
			return fmt.Errorf("%s is %q, want %q", name, got, want)
		}
		return nil
	}
	vary := map[string]bool{}
	optional := map[string]bool{}
	acao := origin
	if c.Any {
		acao = "*"
	} else {
		vary["origin"] = true
	}
	var maxAge string
	var methods, headers []string
	if q.Method == "OPTIONS" {
		if c.MaxAge > 0 {
			maxAge = strconv.Itoa(c.MaxAge)
		}
		methods, headers = c.Methods, c.Headers
		optional["access-control-request-method"], optional["access-control-request-headers"] = true, true
	}
	creds := ""
	if c.Creds {
		creds = "true"
	}
	for _, err := range []error{
		one("Access-Control-Allow-Origin", acao), one("Access-Control-Allow-Credentials", creds), list("Access-Control-Expose-Headers", c.Expose),
		one("Access-Control-Max-Age", maxAge), list("Access-Control-Allow-Methods", methods), list("Access-Control-Allow-Headers", headers),
	} {
		if err != nil {
			return err
		}
	}
	star := false
	if ownVary != nil {
		for _, v := range splitList(*ownVary) {
			vary[strings.ToLower(v)] = true
			star = star || v == "*"
		}
	}
	got := map[string]bool{}
	for _, v := range h["Vary"] {
		for _, x := range splitList(v) {
			got[strings.ToLower(x)] = true
		}
	}
	if star {
		if !got["*"] {
			return fmt.Errorf("Vary is %q, but the response's own Vary was %q", h["Vary"], *ownVary)
		}
		return nil
	}
	for v := range vary {
		if !got[v] {
			return fmt.Errorf("Vary is %q, %s is missing", h["Vary"], v)
		}
	}
	for v := range got {
		if !vary[v] && !optional[v] {
			return fmt.Errorf("Vary is %q, %s is unexpected", h["Vary"], v)
		}
	}
	return nil
}

func genCorsConf(t *rapid.T) corsConf {
	sub := func(label string, pool []string, p int) []string {
		var out []string
		for _, x := range pool {
			if rapid.IntRange(0, p).Draw(t, label) == p {
				out = append(out, x)
			}
		}
		return out
	}
	c := corsConf{Any: rapid.IntRange(0, 3).Draw(t, "any") == 3, Creds: rapid.Bool().Draw(t, "creds"), MaxAge: rapid.SampledFrom([]int{0, 600, 1, -5, 7200, 86400, 86401, 31536000, 1 << 31}).Draw(t, "age")}
	c.Expose = sub("expose", []string{"X-One", "x-two", "ETag"}, 2)
	for _, m := range []string{"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH"} {
		switch rapid.IntRange(0, 3).Draw(t, "method") {
		case 1:
			c.Methods = append(c.Methods, strings.ToLower(m))
		case 2, 3:
			c.Methods = append(c.Methods, m)
		}
	}
	c.Headers = sub("header", []string{"X-Token", "content-type", "Accept", "X-B", "T"}, 1)
	c.Origins = sub("origin", validOrigins[:11], 2)
	if rapid.IntRange(0, 3).Draw(t, "stars") == 3 { // nothing says that any of them stands for others
		c.Headers = append(c.Headers, sub("star", []string{"*", "X-*"}, 1)...)
		c.Methods = append(c.Methods, sub("star", []string{"*", "GET*"}, 1)...)
		c.Origins = append(c.Origins, sub("star", []string{"*", "*.domain.com", "https://*", "https://*.domain.com", "", "domain.com", "null "}, 1)...)
	}
	return c
}

func genCorsReq(t *rapid.T, c corsConf) corsReq {
	q := corsReq{Method: rapid.SampledFrom([]string{"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "OPTIONS", "OPTIONS", "PATCH"}).Draw(t, "m")}
	q.Host = rapid.SampledFrom([]string{"domain.com", "domain.com:8080", "sub.domain.com", "localhost:3000", "domain.com:443", "domain.com:80", "[::1]:8080", "[::1]", "[::1]:80", "[::1]:443", "127.0.0.1:80", "other.org", ""}).Draw(t, "host")
	q.TLS = rapid.Bool().Draw(t, "tls")
	q.AbsURL = rapid.IntRange(0, 4).Draw(t, "abs") == 4
	q.WS = q.AbsURL && rapid.Bool().Draw(t, "ws")
	q.Auth = !q.AbsURL && rapid.IntRange(0, 9).Draw(t, "authority") == 9
	ptr := func(s string) *string { return &s }
	switch k := rapid.IntRange(0, 9).Draw(t, "okind"); {
	case k == 0: // none
	case k == 1:
		q.Origin = ptr(rapid.SampledFrom(invalidOrigins).Draw(t, "bad"))
	case k <= 3:
		q.Origin = ptr(rapid.SampledFrom(validOrigins).Draw(t, "o"))
	case k == 4: // same or nearly the same origin
		schemes := []string{"http", "https"}
		if q.WS {
			schemes = append(schemes, "ws", "wss")
		}
		o := rapid.SampledFrom(schemes).Draw(t, "sch") + "://" + q.Host
		if strings.HasSuffix(q.Host, "]") || !strings.Contains(q.Host, ":") {
			o += rapid.SampledFrom([]string{"", "", ":80", ":443"}).Draw(t, "port")
		} else if rapid.IntRange(0, 2).Draw(t, "cut") == 2 {
			o = o[:strings.LastIndexByte(o, ':')]
		}
		q.Origin = ptr(o)
	default:
		var own []string
		for _, o := range c.Origins {
			if slices.Contains(validOrigins, o) || isInvalid(o) {
				own = append(own, o)
			}
		}
		if n := len(own); n > 0 && rapid.IntRange(0, n).Draw(t, "own") > 0 {
			q.Origin = ptr(rapid.SampledFrom(own).Draw(t, "allowed"))
		} else {
			q.Origin = ptr(validOrigins[0])
		}
	}
	q.Dup = rapid.IntRange(0, 19).Draw(t, "dup") == 19
	if rapid.IntRange(0, 2).Draw(t, "hasacrm") > 0 {
		q.ACRM = ptr(mixCase(t, rapid.SampledFrom([]string{"GET", "PUT", "PUT", "DELETE", "POST", " PATCH ", "", "  ", "PURGE"}).Draw(t, "acrm")+""))
	}
	if rapid.Bool().Draw(t, "hasacrh") {
		pool := append([]string{"", "X-Other", "X", " ", rapid.SampledFrom([]string{"Accept", "Accept-Language", "Content-Language", "Content-Type", "Origin", "Range", "Authorization", "X-Requested-With", "Cookie", "*"}).Draw(t, "common")}, c.Headers...)
		pool = append(pool, c.Headers...)
		var hs []string
		for n := several(t, 0, 3, 30, "nacrh"); n > 0; n-- {
			h := rapid.SampledFrom(pool).Draw(t, "h")
			if rapid.Bool().Draw(t, "up") {
				h = strings.ToUpper(h)
			}
			hs = append(hs, rapid.SampledFrom([]string{"", " "}).Draw(t, "sp")+h)
		}
		if rapid.IntRange(0, 19).Draw(t, "manyacrh") == 19 && len(c.Headers) > 0 { // a long list, of which only the last one is perhaps not allowed
			hs = nil
			for n := rapid.IntRange(7, 140).Draw(t, "nmany"); n > 0; n-- {
				hs = append(hs, c.Headers[n%len(c.Headers)])
			}
			hs = append(hs, rapid.SampledFrom(pool).Draw(t, "last"))
		}
		q.ACRH = ptr(strings.Join(hs, ","))
	}
	if rapid.IntRange(0, 4).Draw(t, "hasct") > 0 {
		q.CType = ptr(rapid.SampledFrom([]string{"text/plain", "Application/JSON; charset=utf-8", "multipart/form-data; boundary=x", "", "; charset=x", "application/x-www-form-urlencoded", " ;"}).Draw(t, "ct"))
	}
	return q
}

func genCorsCase(t *rapid.T) corsCase {
	c := corsCase{Conf: genCorsConf(t), Status: rapid.SampledFrom([]int{200, 204, 404, 299}).Draw(t, "status"), Own: map[string]string{}}
	for n := several(t, 1, 5, 30, "nreq"); n > 0; n-- {
		c.Reqs = append(c.Reqs, genCorsReq(t, c.Conf))
	}
	if rapid.IntRange(0, 2).Draw(t, "hasvary") == 2 {
		v := rapid.SampledFrom([]string{"Accept", "Accept, Origin", "*", "Accept,*", "", "Accept-Encoding ,Cookie", "X-Origin-Region", "Accept, X-Origin", "Origin-Agent-Cluster,Accept", "origin", "Origin", "ORIGIN, accept", "X-Star*", "Accept, Accept-Language, Cookie, User-Agent", "Access-Control-Request-Method"}).Draw(t, "vary")
		c.Vary = &v
	}
	for _, k := range []string{"X-One", "Cache-Control", "Content-Language"} {
		if rapid.Bool().Draw(t, "own") {
			c.Own[k] = rapid.SampledFrom([]string{"a", "b, c", "no-store"}).Draw(t, "ownv")
		}
	}
	c.Body = Str(rapid.SampledFrom([]string{"", "body", "päyload"}).Draw(t, "body"))
	if c.Status == 204 {
		c.Body = ""
	}
	c.Fails = rapid.IntRange(0, 9).Draw(t, "fails") == 9
	return c
}

func runCors(c *Ctx, cc corsCase, wantHeaders bool) error {
	errH := stderrors.New("handler failure")
	runs := 0
	conf := cc.Conf.real()
	mw := middleware.Cors(conf)
	h := mw(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		runs++
		if cc.Fails {
			return nil, errH
		}
		r := response.PlainTextHttpResponse(cc.Status, string(cc.Body))
		for k, v := range cc.Own {
			r.Headers().Set(k, v)
		}
		if cc.Vary != nil {
			r.Headers().Set("Vary", *cc.Vary)
		}
		r.Cookies().Add(&http.Cookie{Name: "own", Value: "1"})
		return r, nil
	})
	for k, q := range cc.Reqs {
		runs = 0
		req := q.real()
		admit, kind := cc.Conf.decide(q)
		c.Class(kind)
		c.ClassIf(admit, "admitted")
		c.ClassIf(!admit, "refused")
		if q.Origin != nil && !wantHeaders && kind != "invalid origin" {
			c.NonTrivial()
		}
		resp, err := h(context.Background(), path.MatchingContext{R: req})
		where := fmt.Sprintf("request %d %s (%s), config %+v: error %v", k, describe(q), kind, cc.Conf, err)
		if !admit {
			if err != errors.ErrAccessDenied || resp != nil {
				return fmt.Errorf("want the request to be refused with ErrAccessDenied; %s", where)
			}
			if runs != 0 {
				return fmt.Errorf("the handler ran for a refused request; %s", where)
			}
			continue
		}
		if cc.Fails {
			if err != errH {
				return fmt.Errorf("want the handler's error; %s", where)
			}
			continue
		}
		if err != nil || resp == nil || runs != 1 {
			return fmt.Errorf("want the request to be admitted, the handler ran %d times; %s", runs, where)
		}
		if !wantHeaders {
			continue
		}
		if q.Origin != nil {
			c.NonTrivial()
		}
		w := httptest.NewRecorder()
		if err := resp.Write(w, path.MatchingContext{R: req}); err != nil {
			return fmt.Errorf("write: %v; %s", err, where)
		}
		if err := cc.Conf.checkHeaders(q, w.Header(), cc.Vary); err != nil {
			return fmt.Errorf("%v; %s", err, where)
		}
		if w.Code != cc.Status || w.Body.String() != string(cc.Body) || w.Header().Get("Set-Cookie") != "own=1" {
			return fmt.Errorf("status %d, body %q, cookies %q are not those of the wrapped response; %s", w.Code, w.Body.String(), w.Header()["Set-Cookie"], where)
		}
		for n := range w.Header() {
			if v, ok := cc.Own[n]; ok {
				if w.Header().Get(n) != v {
					return fmt.Errorf("header %s of the wrapped response became %q; %s", n, w.Header().Get(n), where)
				}
			} else if !strings.HasPrefix(n, "Access-Control-") && n != "Vary" && n != "Set-Cookie" && n != "Content-Type" && n != "X-Content-Type-Options" {
				return fmt.Errorf("unexpected header %s; %s", n, where)
			}
		}
		for n := range cc.Own {
			if _, ok := w.Header()[n]; !ok {
				return fmt.Errorf("header %s of the wrapped response is lost; %s", n, where)
			}
		}
	}
	return nil
}

func describe(q corsReq) string {
	s := func(p *string) string {
		if p == nil {
			return "-"
		}
		return strconv.Quote(*p)
	}
	return fmt.Sprintf("%s host %s tls %v abs %v Origin %s ACRM %s ACRH %s Content-Type %s", q.Method, q.Host, q.TLS, q.AbsURL, s(q.Origin), s(q.ACRM), s(q.ACRH), s(q.CType))
}

func init() {
	register("C19", "CORS configurations (any origin or a list of up to 10, any set of methods in any case, headers) and 1-5 requests through the same middleware: nine methods, hosts and ports with and without TLS, origins that are absent, invalid, allowed, foreign or (nearly) the request's own, preflight methods and header lists, media types. Non-trivial: a request with a valid Origin.",
		15000, 250000, genCorsCase, func(c *Ctx, cc corsCase) error { return runCors(c, cc, false) })
	register("C20", "As C19, with wrapped responses that have headers of their own, among them Vary. Non-trivial: an admitted request with an Origin.",
		15000, 250000, genCorsCase, func(c *Ctx, cc corsCase) error { return runCors(c, cc, true) })
}
