package main

import (
	"bytes"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io"
	"maps"
	"net/http"
	"net/http/httptest"
	"net/url"
	"slices"
	"strings"
	"sync/atomic"

	"pgregory.net/rapid"
)

// Requests carry much that no property mentions: who sent them, what the client
// would like, how proxies saw them. None of it may matter. About every third case
// draws some of it, and every request of the case then carries it.
type noise struct {
	Headers []kv   `json:"headers,omitempty"`
	Query   string `json:"query,omitempty"`
	Remote  string `json:"remote,omitempty"`
	Host    string `json:"host,omitempty"`
	Proto   int    `json:"proto,omitempty"` // ten times the version of the protocol, if it is not 1.1
	TLS     bool   `json:"tls,omitempty"`
	Enc     int    `json:"enc,omitempty"` // every Enc-th character of a routed path was percent-encoded
}

// quietProps are about calls that take no request.
var quietProps = map[string]bool{"C05": true, "C06": true, "C07": true, "C14": true, "C15": true, "C16": true, "C35": true, "C41": true, "C42": true, "C51": true}

// event streams depend on the version of the protocol
var protoProps = map[string]bool{"C32": true, "C33": true, "C43": true}

// same-origin requests and strict transport security depend on TLS
var tlsProps = map[string]bool{"C19": true, "C20": true, "C23": true, "C43": true}

var curNoise atomic.Pointer[noise]

var noiseHeaders = map[string][]string{
	"Accept":                    {"*/*", "application/json", "text/html", "text/event-stream"},
	"Accept-Language":           {"de", "en-US,en;q=0.5"},
	"Authorization":             {"Bearer abc", "Basic YTpi"},
	"Cache-Control":             {"no-cache", "no-store", "only-if-cached"},
	"Connection":                {"close", "keep-alive", "Upgrade"},
	"Cookie":                    {"session=1; debug=true"},
	"Dnt":                       {"1"},
	"Forwarded":                 {"for=10.0.0.1;proto=https;host=other.test"},
	"From":                      {"a@b.test"},
	"If-Modified-Since":         {"Sun, 06 Nov 2044 08:49:37 GMT"},
	"If-None-Match":             {"*", "\"x\""},
	"Max-Forwards":              {"0"},
	"Pragma":                    {"no-cache"},
	"Prefer":                    {"return=minimal"},
	"Purpose":                   {"prefetch"},
	"Range":                     {"bytes=0-1"},
	"Referer":                   {"https://other.test/x", "http://example.test/"},
	"Sec-Fetch-Mode":            {"cors", "navigate"},
	"Sec-Fetch-Site":            {"same-origin", "cross-site"},
	"Te":                        {"trailers"},
	"Upgrade":                   {"websocket", "h2c"},
	"Upgrade-Insecure-Requests": {"1"},
	"User-Agent":                {"curl/8.0", "Mozilla/5.0 (compatible; MSIE 9.0)", "kube-probe/1.30", "Googlebot/2.1", ""},
	"X-Debug":                   {"1", "true"},
	"X-Forwarded-For":           {"127.0.0.1", "10.0.0.1, 192.0.2.7"},
	"X-Forwarded-Host":          {"other.test", "example.test"},
	"X-Forwarded-Prefix":        {"/app", "/x"},
	"X-Forwarded-Proto":         {"https", "http"},
	"X-Forwarded-Ssl":           {"on"},
	"X-Forwarded-Uri":           {"/other"},
	"X-Http-Method-Override":    {"DELETE", "GET", "POST", "OPTIONS"},
	"X-Original-Url":            {"/other", "/"},
	"X-Real-Ip":                 {"127.0.0.1"},
	"X-Request-Id":              {"1"},
	"X-Requested-With":          {"XMLHttpRequest"},
	"X-Rewrite-Url":             {"/other"},
	"X-User":                    {"admin"},
}

// hop-by-hop headers, which net/http's client and server give a meaning of their own
var noiseHop = map[string]bool{"Connection": true, "Te": true, "Upgrade": true}

var noiseNames = slices.Sorted(maps.Keys(noiseHeaders))

func genNoise(t *rapid.T, id string) *noise {
	if rapid.IntRange(0, 2).Draw(t, "noise") < 2 {
		return nil
	}
	var n noise
	for _, k := range rapid.SliceOfNDistinct(rapid.SampledFrom(noiseNames), 0, 12, func(s string) string { return s }).Draw(t, "noiseHeaders") {
		n.Headers = append(n.Headers, kv{k, Str(rapid.SampledFrom(noiseHeaders[k]).Draw(t, "noiseValue"))})
	}
	n.Query = rapid.SampledFrom([]string{"", "", "debug=1", "_method=DELETE&pretty=true", "format=json&callback=f", "method=POST;x", "lastEventId=5&id=7&v0=q&state=s&path=/other"}).Draw(t, "noiseQuery")
	n.Remote = rapid.SampledFrom([]string{"", "127.0.0.1:80", "[::1]:4000", "10.1.2.3:99", "@"}).Draw(t, "noiseRemote")
	n.Host = rapid.SampledFrom([]string{"", "", "localhost", "127.0.0.1:8080", "x.test:443", "[::1]:80", "EXAMPLE.com.", "www.example.test", "admin.x.test:8443"}).Draw(t, "noiseHost")
	if rapid.IntRange(0, 2).Draw(t, "noiseEnc") == 2 {
		n.Enc = rapid.IntRange(1, 5).Draw(t, "noiseEvery")
	}
	n.Proto = rapid.SampledFrom([]int{0, 0, 0, 10, 20, 20, 30}).Draw(t, "noiseProto")
	n.TLS = rapid.IntRange(0, 3).Draw(t, "noiseTLS") == 3
	if protoProps[id] {
		n.Proto = 0
	}
	if tlsProps[id] {
		n.TLS = false
	}
	if len(n.Headers) == 0 && n.Query == "" && n.Remote == "" && n.Host == "" && n.Enc == 0 && n.Proto == 0 && !n.TLS {
		return nil
	}
	return &n
}

// addNoise adds the noise of the current case to a request that is handed to the code directly.
func addNoise(r *http.Request) *http.Request {
	n := curNoise.Load()
	if n == nil {
		return r
	}
	for _, x := range n.Headers {
		if _, ok := r.Header[x.K]; !ok {
			r.Header.Set(x.K, string(x.V))
		}
	}
	if n.Proto > 0 && r.ProtoMajor == 1 && r.ProtoMinor == 1 {
		r.ProtoMajor, r.ProtoMinor = n.Proto/10, n.Proto%10
		r.Proto = fmt.Sprintf("HTTP/%d.%d", r.ProtoMajor, r.ProtoMinor)
	}
	if n.TLS && r.TLS == nil {
		r.TLS = &tls.ConnectionState{Version: tls.VersionTLS13, HandshakeComplete: true, ServerName: "example.test"}
	}
	if n.Remote != "" {
		r.RemoteAddr = n.Remote
	}
	if n.Host != "" && r.URL.Host == "" {
		r.Host = n.Host
	}
	return r
}

// encodePath spells a path as a client may: any character can be percent-encoded.
func encodePath(p string, every int) string {
	if every <= 0 {
		return p
	}
	var sb strings.Builder
	for i := 0; i < len(p); i++ {
		switch c := p[i]; {
		case c == '/' && (i == 0 || every > 1): // (at the finest, the slashes as well)
			sb.WriteByte(c)
		case i%every == 0:
			fmt.Fprintf(&sb, []string{"%%%02x", "%%%02X"}[i/every%2], c)
		default:
			sb.WriteString(url.PathEscape(p[i : i+1]))
		}
	}
	return sb.String()
}

// noisyWire adds the noise to a request that is sent over a connection.
func noisyWire(r *http.Request) *http.Request {
	n := curNoise.Load()
	if n == nil {
		return r
	}
	for _, x := range n.Headers {
		if _, ok := r.Header[x.K]; !ok && !noiseHop[x.K] {
			r.Header.Set(x.K, string(x.V))
		}
	}
	return r
}

func testReq(method, target string, body io.Reader) *http.Request {
	return addNoise(httptest.NewRequest(method, target, body))
}

// withNoise is a case together with its noise, which is one more field of its JSON object.
type withNoise[C any] struct {
	c C
	n *noise
}

func (w withNoise[C]) MarshalJSON() ([]byte, error) {
	b, err := json.Marshal(w.c)
	if err != nil || w.n == nil {
		return b, err
	}
	n, err := json.Marshal(w.n)
	if err != nil {
		return nil, err
	}
	b = bytes.TrimSuffix(b, []byte("}"))
	if len(b) > 1 {
		b = append(b, ',')
	}
	b = append(b, `"request_noise":`...)
	return append(append(b, n...), '}'), nil
}

func (w *withNoise[C]) UnmarshalJSON(b []byte) error {
	var x struct {
		N *noise `json:"request_noise"`
	}
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	w.n = x.N
	return json.Unmarshal(b, &w.c)
}
