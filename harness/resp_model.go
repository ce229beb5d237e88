package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	html "html/template"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"net/http/httptrace"
	"net/textproto"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"text/template"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"pgregory.net/rapid"
)

// ---- response specifications ----

const (
	rkText = iota
	rkHTML
	rkJSON
	rkJSONError
	rkStream
	rkRaw
	rkTemplateText
	rkTemplateHTML
	rkHeaders // HttpHeadersResponse: no body
	rkCount
)

var rkNames = []string{"text", "html", "json", "json error", "stream", "raw", "text template", "html template", "headers only"}

type cookieSpec struct {
	Name     string `json:"n"`
	Value    string `json:"v"`
	Path     string `json:"p,omitempty"`
	Domain   string `json:"d,omitempty"`
	MaxAge   int    `json:"a,omitempty"`
	Secure   bool   `json:"s,omitempty"`
	HttpOnly bool   `json:"h,omitempty"`
	SameSite int    `json:"ss,omitempty"`
	Expires  int64  `json:"e,omitempty"`
}

func (c cookieSpec) real() *http.Cookie {
	k := &http.Cookie{Name: c.Name, Value: c.Value, Path: c.Path, Domain: c.Domain, MaxAge: c.MaxAge, Secure: c.Secure, HttpOnly: c.HttpOnly, SameSite: http.SameSite(c.SameSite)}
	if c.Expires != 0 {
		k.Expires = time.Unix(c.Expires, 0)
	}
	return k
}

type kv struct {
	K string `json:"k"`
	V Str    `json:"v"`
}

type respSpec struct {
	Kind    int          `json:"kind"`
	Status  int          `json:"status"`
	CT      string       `json:"ct,omitempty"` // stream and raw
	Headers []kv         `json:"headers,omitempty"`
	Late    []kv         `json:"late,omitempty"` // set on the response after its construction
	Cookies []cookieSpec `json:"cookies,omitempty"`
	LateC   []cookieSpec `json:"lateCookies,omitempty"`
	Body    Str          `json:"body,omitempty"` // text, stream, raw, templates (the data), JSON error (the message)
	JSON    any          `json:"json,omitempty"`
	Go      int          `json:"go,omitempty"`      // as which Go value the JSON tree is given: one of the jsonForms
	Chunks  []int        `json:"chunks,omitempty"`  // pieces of a stream or raw body
	Source  int          `json:"source,omitempty"`  // which reader of the standard library a stream has
	Fail    bool         `json:"fail,omitempty"`    // the reader, writer function or template fails after the body
	FailErr int          `json:"failErr,omitempty"` // with which of sourceErrs
	Short   bool         `json:"short,omitempty"`   // use the shortest constructor that can express it
	Made    int          `json:"made,omitempty"`    // how the maps are made: by the constructors, empty and then filled, or as literals
}

// Go values that a JSON tree is given as.
const (
	goPlain = iota
	goPointer
	goStruct
	goRaw
	goMarshaler
	goTextMarshaler
	goNilPointer
	goNilMap
	goNilSlice
	goTyped
	goBytes
	goError
	goNamed
	jsonForms
)

type jsonStruct struct {
	Value  any            `json:"value"`
	Empty  string         `json:"empty,omitempty"`
	Hidden string         `json:"-"`
	Plain  *jsonStruct    `json:",omitempty"`
	Number int64          `json:"number,string"`
	Bytes  []byte         `json:"bytes"`
	At     time.Time      `json:"at"`
	Keys   map[int]string `json:"keys"`
}

type jsonMarshaler struct{ v any }

func (j jsonMarshaler) MarshalJSON() ([]byte, error) { return json.Marshal([]any{"marshalled", j.v}) }

type textMarshaler string

func (s textMarshaler) MarshalText() ([]byte, error) { return []byte("<" + s + ">"), nil }

func (s respSpec) jsonPayload() any {
	switch s.Go {
	case goPointer:
		return &s.JSON
	case goStruct:
		return jsonStruct{Value: s.JSON, Hidden: "h", Number: 1<<53 + 1, Bytes: []byte{0, 255}, At: time.Unix(1e9, 5).UTC(), Keys: map[int]string{-1: "x", 10: "", 9: "<"}, Plain: &jsonStruct{Value: "p"}}
	case goRaw:
		b, _ := json.Marshal(s.JSON)
		return json.RawMessage(b)
	case goMarshaler:
		return jsonMarshaler{s.JSON}
	case goTextMarshaler:
		return map[textMarshaler]any{"k": s.JSON, "": textMarshaler("v")}
	case goNilPointer:
		return (*jsonStruct)(nil)
	case goNilMap:
		return map[string]any(nil)
	case goNilSlice:
		return []any(nil)
	case goTyped:
		return []map[string][]float32{{"a": {1, 0.5}, "b": nil}, nil, {}}
	}
	switch s.Go {
	case goBytes:
		b, _ := json.Marshal(s.JSON)
		return b
	case goError:
		return fmt.Errorf("an error as the payload: %v", s.JSON)
	case goNamed:
		return jsonNamed{jsonName(fmt.Sprint(s.JSON)), bytes.NewBufferString("{}").String(), strings.NewReader("reader")}
	}
	return s.JSON
}

type jsonName string

func (n jsonName) String() string { return "not " + string(n) }

type jsonNamed struct {
	Name   fmt.Stringer
	Text   string
	Reader io.Reader
}

func (n jsonNamed) String() string { return "text" }

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

var errSource = errors.New("source failed")

// sourceErrs are errors that reading, writing or rendering a body may give.
var sourceErrs = []error{errSource, io.ErrUnexpectedEOF, context.Canceled, http.ErrHandlerTimeout, io.EOF, net.ErrClosed, io.ErrClosedPipe, os.ErrDeadlineExceeded, syscall.EPIPE, io.ErrNoProgress,
	os.ErrNotExist, http.ErrAbortHandler, io.ErrShortWrite, context.DeadlineExceeded, http.ErrBodyReadAfterClose, fmt.Errorf("wrapped: %w", io.EOF)}

func (s respSpec) err() error {
	if e := sourceErrs[s.FailErr%len(sourceErrs)]; e != io.EOF || s.Kind != rkStream {
		return e
	}
	return errSource // (io.EOF is the regular end of a stream)
}

// pieceReader delivers data in the given pieces, then err.
type pieceReader struct {
	data   string
	pieces []int
	i      int
	err    error
}

func (p *pieceReader) Read(b []byte) (int, error) {
	if len(p.data) == 0 {
		return 0, p.err
	}
	n := len(b)
	if len(p.pieces) > 0 {
		n = min(n, p.pieces[p.i%len(p.pieces)])
		p.i++
	}
	n = copy(b[:min(n, len(b))], p.data)
	p.data = p.data[n:]
	if len(p.data) == 0 && p.i%2 == 1 {
		return n, p.err // data and end together
	}
	return n, nil
}

func pieces(s string, sizes []int, yield func(string) error) error {
	if len(sizes) == 0 {
		return yield(s)
	}
	for i := 0; len(s) > 0; i++ {
		n := min(sizes[i%len(sizes)], len(s))
		if n == 0 && i > 3*len(sizes) {
			n = len(s)
		}
		if err := yield(s[:n]); err != nil {
			return err
		}
		s = s[n:]
	}
	return nil
}

type failTemplate struct {
	inner response.ExecutableTemplate
	err   error
}

func (f failTemplate) Execute(w io.Writer, data any) error { return f.err }
func (f failTemplate) ExecuteTemplate(w io.Writer, name string, data any) error {
	_ = f.inner.ExecuteTemplate(w, name, data)
	return f.err
}

const templateSource = `{{define "page"}}<p class="{{.Body}}">{{.Body}}</p>{{range $i, $h := .Headers}}
{{$i}}: {{$h.K}}{{end}}{{end}}{{define "empty"}}{{end}}`

var textTemplate = template.Must(template.New("t").Parse(templateSource))
var htmlTemplate = html.Must(html.New("t").Parse(templateSource))

func (s respSpec) templateName() string {
	if s.Body == "" {
		return "empty"
	}
	return "page"
}

type templateData struct {
	Body    string
	Headers []kv
}

func (s respSpec) tmpl() response.ExecutableTemplate {
	var t response.ExecutableTemplate = textTemplate
	if s.Kind == rkTemplateHTML {
		t = htmlTemplate
	}
	if s.Fail {
		return failTemplate{t, s.err()}
	}
	return t
}

// build creates the response through the constructors of the package.
func (s respSpec) build() response.HttpResponse {
	var h response.HttpHeaders
	if s.Headers != nil {
		h = response.NewHttpHeaders()
		if s.Made == 3 {
			h = response.HttpHeaders{}
		}
		for _, x := range s.Headers {
			h.Set(x.K, string(x.V))
		}
	}
	var ck response.HttpCookies
	if s.Cookies != nil {
		var cs []*http.Cookie
		for _, x := range s.Cookies {
			cs = append(cs, x.real())
		}
		switch s.Made {
		case 1:
			ck = response.NewEmptyHttpCookie()
			ck.Add(cs...)
		case 2:
			ck = response.NewHttpCookie()
			for _, x := range cs {
				ck.Add(x)
			}
		case 3:
			ck = response.HttpCookies{}
			ck.Add(cs...)
		default:
			ck = response.NewHttpCookie(cs...)
		}
	}
	body := string(s.Body)
	var r response.HttpResponse
	reader := func() io.Reader {
		const read = "read before "
		skip := func(r io.Reader) io.Reader {
			_, _ = io.ReadFull(r, make([]byte, len(read)))
			return r
		}
		end := io.EOF
		switch s.Source * b2i(!s.Fail) {
		case 1:
			return skip(strings.NewReader(read + body))
		case 2:
			return skip(bytes.NewReader([]byte(read + body)))
		case 3:
			return skip(bytes.NewBufferString(read + body))
		case 4:
			return skip(bufio.NewReader(strings.NewReader(read + body)))
		case 5:
			return io.LimitReader(strings.NewReader(body+" beyond the limit"), int64(len(body)))
		case 6:
			return io.NewSectionReader(strings.NewReader(read+body+" after"), int64(len(read)), int64(len(body)))
		case 7:
			return io.MultiReader(strings.NewReader(body[:len(body)/2]), strings.NewReader(""), strings.NewReader(body[len(body)/2:]))
		}
		if s.Fail {
			end = s.err()
		}
		return &pieceReader{data: body, pieces: s.Chunks, err: end}
	}
	raw := func(w io.Writer) error {
		if err := pieces(body, s.Chunks, func(p string) error { _, err := io.WriteString(w, p); return err }); err != nil {
			return err
		}
		if s.Fail {
			return s.err()
		}
		return nil
	}
	payload := s.jsonPayload()
	if s.Fail {
		payload = map[string]any{"f": func() {}}
	}
	data := templateData{body, s.Headers}
	if s.Short {
		r = s.buildShort(h, ck, reader, raw, payload, data)
	}
	switch {
	case r != nil:
	case s.Kind == rkText:
		r = response.PlainTextResponseWithHeadersAndCookies(s.Status, body, h, ck)
	case s.Kind == rkHTML:
		r = response.HtmlResponseWithHeadersAndCookies(s.Status, body, h, ck)
	case s.Kind == rkJSON:
		r = response.JsonHttpResponseWithHeadersAndCookies(s.Status, payload, h, ck)
	case s.Kind == rkJSONError:
		r = response.JsonErrorHttpResponseWithHeadersAndCookies(s.Status, jsonError(body, s.Status), h, ck)
	case s.Kind == rkStream:
		r = response.StreamHttpResponseWithHeadersAndCookies(s.Status, s.CT, h, ck, reader())
	case s.Kind == rkRaw:
		r = response.RawWriterHttpResponseWithHeadersAndCookies(s.Status, s.CT, h, ck, raw)
	case s.Kind == rkTemplateText || s.Kind == rkTemplateHTML:
		r = response.TemplateHttpResponseWithHeadersAndCookies(s.tmpl(), s.Status, s.templateName(), data, h, ck)
	default:
		r = &response.HttpHeadersResponse{HttpStatusCode: s.Status, ContentType: s.CT, HttpHeaders: h, HttpCookies: ck}
	}
	for _, x := range s.Late {
		r.Headers().Set(x.K, string(x.V))
	}
	for _, x := range s.LateC {
		r.Cookies().Add(x.real())
	}
	return r
}

// buildShort uses the constructors that leave things out, if one fits.
func (s respSpec) buildShort(h response.HttpHeaders, ck response.HttpCookies, reader func() io.Reader, raw response.RawWriterFunc, payload any, data any) response.HttpResponse {
	body := string(s.Body)
	noH, noC, ok := s.Headers == nil, s.Cookies == nil, s.Status == 200
	switch s.Kind {
	case rkText:
		switch {
		case noH && noC && ok:
			return response.PlainTextHttpResponseOK(body)
		case noH && noC:
			return response.PlainTextHttpResponse(s.Status, body)
		case noC:
			return response.PlainTextHttpResponseWithHeaders(s.Status, body, h)
		}
	case rkHTML:
		switch {
		case noH && noC && ok:
			return response.HtmlHttpResponseOK(body)
		case noH && noC:
			return response.HtmlHttpResponse(s.Status, body)
		case noC:
			return response.HtmlHttpResponseWithHeaders(s.Status, body, h)
		}
	case rkJSON:
		switch {
		case noH && noC && ok:
			return response.JsonHttpResponseOK(payload)
		case noH && noC:
			return response.JsonHttpResponse(s.Status, payload)
		case noC:
			return response.JsonHttpResponseWithHeaders(s.Status, payload, h)
		case noH:
			return response.JsonHttpResponseWithCookies(s.Status, payload, ck)
		}
	case rkJSONError:
		switch {
		case noH && noC:
			return response.JsonErrorHttpResponse(s.Status, jsonError(body, s.Status))
		case noC:
			return response.JsonErrorHttpResponseWithHeaders(s.Status, jsonError(body, s.Status), h)
		case noH:
			return response.JsonErrorHttpResponseWithCookies(s.Status, jsonError(body, s.Status), ck)
		}
	case rkStream:
		switch {
		case noH && noC && ok:
			return response.StreamHttpResponse(s.CT, reader())
		case noC:
			return response.StreamHttpResponseWithHeaders(s.Status, s.CT, h, reader())
		case noH:
			return response.StreamHttpResponseWithCookies(s.Status, s.CT, ck, reader())
		}
	case rkRaw:
		switch {
		case noH && noC && ok:
			return response.RawWriterHttpResponse(s.CT, raw)
		case noC:
			return response.RawWriterHttpResponseWithHeaders(s.Status, s.CT, h, raw)
		case noH:
			return response.RawWriterHttpResponseWithCookies(s.Status, s.CT, ck, raw)
		}
	case rkTemplateText, rkTemplateHTML:
		switch {
		case noH && noC && ok:
			return response.TemplateHttpResponseOK(s.tmpl(), s.templateName(), data)
		case noH && noC && s.Status == 404:
			return response.TemplateHttpResponseNotFound(s.tmpl(), s.templateName(), data)
		case noC:
			return response.TemplateHttpResponseWithHeaders(s.tmpl(), s.Status, s.templateName(), data, h)
		case noH:
			return response.TemplateHttpResponseWithCookies(s.tmpl(), s.Status, s.templateName(), data, ck)
		}
	case rkHeaders:
		if noH && noC && s.Status == 500 && s.CT == "" {
			return response.InternalServerErrorHttpResponse()
		}
	}
	return nil
}

func (s respSpec) wantStatus() int {
	if s.Status == 0 {
		return 200
	}
	return s.Status
}

// own gives the headers set on the response, by canonical name.
func (s respSpec) own() map[string]string {
	m := map[string]string{}
	for _, x := range append(append([]kv(nil), s.Headers...), s.Late...) {
		m[http.CanonicalHeaderKey(x.K)] = string(x.V)
	}
	return m
}

// wantHeaders gives all headers of the response except cookies.
func (s respSpec) wantHeaders() map[string]string {
	m := s.own()
	ct := s.CT
	switch s.Kind {
	case rkText, rkTemplateText:
		ct = "text/plain; charset=utf-8"
	case rkHTML, rkTemplateHTML:
		ct = "text/html; charset=utf-8"
	case rkJSON, rkJSONError:
		ct = "application/json"
	}
	if s.Kind == rkTemplateHTML && s.Fail {
		ct = "text/plain; charset=utf-8" // the failing template is not an html/template
	}
	if _, ok := m["Content-Type"]; !ok && ct != "" {
		m["Content-Type"] = ct
	}
	if _, ok := m["X-Content-Type-Options"]; !ok {
		m["X-Content-Type-Options"] = "nosniff"
	}
	return m
}

// wantCookies gives the Set-Cookie values, sorted: the last one of every name, path and domain.
func (s respSpec) wantCookies() []string {
	return cookieLines(append(append([]cookieSpec(nil), s.Cookies...), s.LateC...))
}

func cookieLines(cs []cookieSpec) []string {
	m := map[[3]string]cookieSpec{}
	for _, c := range cs {
		m[[3]string{c.Name, c.Path, c.Domain}] = c
	}
	out := []string{}
	for _, c := range m {
		out = append(out, c.real().String())
	}
	sort.Strings(out)
	return out
}

// checkBody tells whether body is the payload.
func (s respSpec) checkBody(body string) error {
	want := string(s.Body)
	switch s.Kind {
	case rkJSON:
		payload := s.jsonPayload()
		if payload == nil {
			want = "{}"
			break
		}
		if s.Go > 0 {
			b, err := json.Marshal(payload)
			if err == nil {
				err = json.Unmarshal(b, &s.JSON)
			}
			if err != nil {
				return fmt.Errorf("harness error: %v", err)
			}
		}
		var got any
		if err := json.Unmarshal([]byte(body), &got); err != nil {
			return fmt.Errorf("the body %s is not JSON: %v", clip(fmt.Sprintf("%q", body), 300), err)
		}
		if !reflect.DeepEqual(got, s.JSON) {
			return fmt.Errorf("the body is %s, the payload %#v", clip(body, 300), s.JSON)
		}
		return nil
	case rkJSONError:
		r, n := utf8.DecodeRuneInString(want)
		msg := want
		if n > 0 {
			msg = string(unicode.ToUpper(r)) + want[n:]
		}
		var got map[string]any
		if err := json.Unmarshal([]byte(body), &got); err != nil {
			return fmt.Errorf("the body %q is not JSON: %v", body, err)
		}
		if len(got) != 1 || got["error"] != msg {
			return fmt.Errorf("the body is %s, the error %q", body, want)
		}
		return nil
	case rkTemplateText, rkTemplateHTML:
		var b bytes.Buffer
		t := s
		t.Fail = false
		if err := t.tmpl().ExecuteTemplate(&b, s.templateName(), templateData{string(s.Body), s.Headers}); err != nil {
			return fmt.Errorf("harness error: template: %v", err)
		}
		want = b.String()
	case rkHeaders:
		want = ""
	}
	if body != want {
		return fmt.Errorf("the body is %s, want %s", clip(fmt.Sprintf("%q", body), 300), clip(fmt.Sprintf("%q", want), 300))
	}
	return nil
}

// checkHead compares status, headers (except those in ignore) and cookies.
func (s respSpec) checkHead(status int, h http.Header, ignore ...string) error {
	if status != s.wantStatus() {
		return fmt.Errorf("the status is %d, want %d", status, s.wantStatus())
	}
	return checkHeaders(h, s.wantHeaders(), s.wantCookies(), ignore...)
}

func checkHeaders(h http.Header, want map[string]string, cookies []string, ignore ...string) error {
	skip := map[string]bool{"Set-Cookie": true}
	for _, k := range ignore {
		skip[k] = true
	}
	for k, v := range want {
		if skip[k] {
			continue
		}
		if got := h[k]; len(got) != 1 || got[0] != v {
			return fmt.Errorf("the header %s is %q, want %q", k, got, v)
		}
	}
	for k, v := range h {
		if _, ok := want[k]; !ok && !skip[k] {
			return fmt.Errorf("the header %s: %q is not expected", k, v)
		}
	}
	got := append([]string{}, h["Set-Cookie"]...)
	sort.Strings(got)
	if strings.Join(got, "\n") != strings.Join(cookies, "\n") {
		return fmt.Errorf("the cookies are %q, want %q", got, cookies)
	}
	return nil
}

// ---- sending ----

type sent struct {
	Status int
	Header http.Header
	Body   string
	Err    error // of HttpResponse.Write
}

// plainWriter hides the optional interfaces of a ResponseWriter.
type plainWriter struct{ w http.ResponseWriter }

func (p plainWriter) Header() http.Header         { return p.w.Header() }
func (p plainWriter) Write(b []byte) (int, error) { return p.w.Write(b) }
func (p plainWriter) WriteHeader(s int)           { p.w.WriteHeader(s) }

func record(resp response.HttpResponse, r *http.Request, plain bool) sent {
	rec := httptest.NewRecorder()
	var w http.ResponseWriter = rec
	if plain {
		w = plainWriter{rec}
	}
	err := resp.Write(w, path.MatchingContext{R: r})
	return recorded(rec, err)
}

func recorded(rec *httptest.ResponseRecorder, err error) sent {
	res := rec.Result()
	return sent{res.StatusCode, res.Header, rec.Body.String(), err}
}

var quietLog = log.New(io.Discard, "", 0)

// loopback is one HTTP/1.1 server on the loopback interface whose handler is
// exchanged from case to case.
type loopback struct {
	srv     *httptest.Server
	handler atomic.Pointer[http.HandlerFunc]
	client  http.RoundTripper
}

var realServer = sync.OnceValue(func() *loopback {
	l := &loopback{}
	l.srv = httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { (*l.handler.Load())(w, r) }))
	l.srv.Config.ErrorLog = quietLog
	l.srv.Start()
	l.client = &http.Transport{DisableCompression: true, MaxIdleConnsPerHost: 64}
	return l
})

// do sends one request to the handler over TCP. A body that ends early gives Err.
func (l *loopback) do(h http.HandlerFunc, method, target string, header http.Header) (sent, error) {
	done := make(chan struct{})
	var once sync.Once
	wrapped := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		defer once.Do(func() { close(done) })
		h(w, r)
	})
	l.handler.Store(&wrapped)
	req, err := http.NewRequest(method, l.srv.URL+target, nil)
	if err != nil {
		return sent{}, fmt.Errorf("harness error: %v", err)
	}
	req.Header = header.Clone()
	if req.Header == nil {
		req.Header = http.Header{}
	}
	noisyWire(req)
	var mu sync.Mutex
	var early []string
	req = req.WithContext(httptrace.WithClientTrace(req.Context(), &httptrace.ClientTrace{Got1xxResponse: func(code int, h textproto.MIMEHeader) error {
		mu.Lock()
		defer mu.Unlock()
		early = append(early, fmt.Sprint(code, " ", h["Link"]))
		return nil
	}}))
	res, err := l.client.RoundTrip(req)
	if err != nil {
		return sent{}, err
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	res.Header.Del("Date")
	<-done // what the handler recorded is complete
	mu.Lock()
	defer mu.Unlock()
	if len(early) > 0 {
		res.Header["(informational)"] = early
	}
	for k, v := range res.Trailer {
		if len(v) > 0 {
			res.Header["(trailer) "+k] = v
		}
	}
	return sent{res.StatusCode, res.Header, string(b), err}, nil
}

// ---- generators ----

var headerNames = []string{"X-A", "x-lower", "X_under", "Cache-Control", "ETag", "Link", "Vary", "Content-Language", "Accept-Encoding", "Location", "Content-Type", "content-type", "X-Content-Type-Options", "X-Frame-Options"}
var headerValues = []string{"1", "", "a b; c=\"d\"", "no-store, max-age=0", "\xe4\xf6", "über", strings.Repeat("v", 5000)}
var bodies = []string{"", "x", "hello world", "<b>&amp;</b> \"quoted\" 'x' <script>", "\x00\xff binary \r\n", "line1\nline2\r\n\r\n", "日本語 ü", "{\"a\":1}", "%s %d %!", "\n"}

func genHeaders(t *rapid.T, max int) []kv {
	n := several(t, 0, max, 20*max, "nheaders")
	if n == 0 {
		return nil
	}
	used := map[string]bool{}
	var out []kv
	for ; n > 0; n-- {
		k := rapid.SampledFrom(headerNames).Draw(t, "hname")
		if len(out) > 4 {
			k = fmt.Sprintf("X-More-%d", n)
		}
		if used[http.CanonicalHeaderKey(k)] {
			continue
		}
		used[http.CanonicalHeaderKey(k)] = true
		v := rapid.SampledFrom(headerValues).Draw(t, "hval")
		if strings.EqualFold(k, "Content-Type") {
			v = rapid.SampledFrom([]string{"application/xml", "text/csv; charset=latin1", "x/y"}).Draw(t, "ctval")
		} else if k == "X-Content-Type-Options" {
			v = rapid.SampledFrom([]string{"none", "NOSNIFF", "x"}).Draw(t, "ctoval")
		}
		out = append(out, kv{k, Str(v)})
	}
	return out
}

// lateHeaders avoids other spellings of names that are set already: which of
// two spellings wins is not specified.
func lateHeaders(t *rapid.T, early []kv, max int) []kv {
	var out []kv
	for _, x := range genHeaders(t, max) {
		for _, y := range early {
			if http.CanonicalHeaderKey(x.K) == http.CanonicalHeaderKey(y.K) {
				x.K = y.K
			}
		}
		out = append(out, x)
	}
	return out
}

func genCookie(t *rapid.T) cookieSpec {
	c := cookieSpec{Name: rapid.SampledFrom([]string{"a", "b", "A", "sid", "__Host-x"}).Draw(t, "cname"),
		Value:  rapid.SampledFrom([]string{"", "1", "v a l", "x=y", "longer-value/with+chars", "a,b"}).Draw(t, "cval"),
		Path:   rapid.SampledFrom([]string{"", "/", "/a", "/a:b", "/A", "/a/"}).Draw(t, "cpath"),
		Domain: rapid.SampledFrom([]string{"", "", "example.com", "sub.example.com", "127.0.0.1", ".example.com", "Example.com"}).Draw(t, "cdom")}
	if rapid.IntRange(0, 2).Draw(t, "cattr") == 2 {
		c.MaxAge = rapid.SampledFrom([]int{0, -1, 1, 3600}).Draw(t, "cage")
		c.Secure = rapid.Bool().Draw(t, "csec")
		c.HttpOnly = rapid.Bool().Draw(t, "chttp")
		c.SameSite = rapid.IntRange(0, 4).Draw(t, "csame")
		c.Expires = rapid.SampledFrom([]int64{0, 1700000000, 4000000000}).Draw(t, "cexp")
	}
	return c
}

func genCookies(t *rapid.T, max int) []cookieSpec {
	n := several(t, 0, max, 20*max, "ncookies")
	var out []cookieSpec
	for ; n > 0; n-- {
		c := genCookie(t)
		if len(out) > 4 && rapid.Bool().Draw(t, "more") {
			c.Name = fmt.Sprintf("more%d", n)
		}
		out = append(out, c)
	}
	return out
}

func genJSON(t *rapid.T, depth int) any {
	k := rapid.IntRange(0, 7).Draw(t, "json")
	if depth == 0 && k > 5 {
		k = 1
	}
	switch k {
	case 0:
		return nil
	case 1:
		return rapid.SampledFrom([]any{"", "text", "<&>\u2028\"\\", "日本", "\x00\x1f", "{}", "[1]", "null", "42", "\"q\""}).Draw(t, "jstr")
	case 2:
		return rapid.SampledFrom([]any{0.0, 1.0, -1.5, 1e300, 9007199254740991.0, 0.1}).Draw(t, "jnum")
	case 3:
		return rapid.Bool().Draw(t, "jbool")
	case 4:
		return []any{}
	case 5:
		return map[string]any{}
	case 6:
		out := []any{}
		for n := several(t, 0, 3, 300, "jlen"); n > 0; n-- {
			out = append(out, genJSON(t, depth-1))
		}
		return out
	}
	out := map[string]any{}
	for n := several(t, 0, 3, 300, "jlen"); n > 0; n-- {
		out[rapid.SampledFrom([]string{"a", "b", "", "k<", "ключ"}).Draw(t, "jkey")] = genJSON(t, depth-1)
	}
	return out
}

// hugeText gives n bytes, that can hardly be compressed or vary slowly.
func hugeText(n int, random bool) string {
	b := make([]byte, n)
	x := uint32(2463534242)
	for i := range b {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		if random {
			b[i] = byte(x)
		} else {
			b[i] = byte(i >> 8)
		}
	}
	return string(b)
}

func genBody(t *rapid.T) string {
	switch rapid.IntRange(0, 9).Draw(t, "body") {
	case 0:
		if rapid.IntRange(0, 14).Draw(t, "huge") == 14 {
			return hugeText(rapid.SampledFrom([]int{32768, 65535, 65537, 200000, 1<<20 + 1}).Draw(t, "hlen"), rapid.Bool().Draw(t, "hrandom"))
		}
		return strings.Repeat("abcdefghij", rapid.SampledFrom([]int{10, 51, 52, 204, 205, 206, 1000, 10000}).Draw(t, "brep"))
	case 1:
		return string(rapid.SliceOfN(rapid.Byte(), 0, 600).Draw(t, "bytes"))
	case 2:
		return rapid.SampledFrom(bodies).Draw(t, "b1") + rapid.SampledFrom(bodies).Draw(t, "b2")
	}
	return rapid.SampledFrom(bodies).Draw(t, "b")
}

var okStatuses = []int{0, 200, 200, 201, 202, 206, 400, 401, 403, 404, 418, 500, 503, 599}

// genStatus draws a status that allows a body.
func genStatus(t *rapid.T) int {
	if rapid.IntRange(0, 7).Draw(t, "anyStatus") < 7 {
		return rapid.SampledFrom(okStatuses).Draw(t, "status")
	}
	s := rapid.IntRange(200, 599).Draw(t, "status")
	if s == 204 || s == 205 || s == 304 {
		s = 200
	}
	return s
}

func genResp(t *rapid.T) respSpec {
	s := respSpec{Short: rapid.Bool().Draw(t, "short"), Made: max(0, rapid.IntRange(-3, 3).Draw(t, "made")), Kind: rapid.IntRange(0, rkCount-1).Draw(t, "kind"), Status: genStatus(t)}
	if s.Kind == rkHeaders && rapid.IntRange(0, 5).Draw(t, "bare") == 5 {
		return respSpec{Kind: rkHeaders, Status: 500, Short: true}
	}
	if s.Kind == rkHeaders && rapid.IntRange(0, 3).Draw(t, "nobody") == 3 {
		s.Status = rapid.SampledFrom([]int{204, 304}).Draw(t, "bodiless")
	}
	if s.Kind == rkStream || s.Kind == rkRaw || s.Kind == rkHeaders {
		s.CT = rapid.SampledFrom([]string{"text/plain", "application/octet-stream", "image/png", ""}).Draw(t, "ct")
		s.Chunks = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 7, 100, 511, 512, 513, 5000, 0}), 0, 4).Draw(t, "chunks")
		if len(s.Chunks) > 0 && s.Chunks[0] == 0 {
			s.Chunks[0] = 1
		}
	}
	if s.Kind == rkStream && rapid.IntRange(0, 2).Draw(t, "std") == 2 {
		s.Source = rapid.IntRange(1, 7).Draw(t, "source")
	}
	s.Headers = genHeaders(t, 3)
	s.Late = lateHeaders(t, s.Headers, 3)
	s.Cookies = genCookies(t, 3)
	s.LateC = genCookies(t, 2)
	switch s.Kind {
	case rkJSON:
		s.JSON = genJSON(t, 3)
		if rapid.IntRange(0, 2).Draw(t, "typed") == 2 {
			s.Go = rapid.IntRange(0, jsonForms-1).Draw(t, "go")
		}
	case rkJSONError:
		s.Body = Str(rapid.SampledFrom([]string{"", "x", "some error", "Über", "über alles", "éa", "ß", "日本", "\"q\"", "1 failed", "ǆx", " padded", "trailing ", "\n\tline\n", "two: parts: of it", "ended.", "Capital", "  "}).Draw(t, "msg"))
	case rkTemplateText, rkTemplateHTML:
		s.Body = Str(rapid.SampledFrom([]string{"", "x", "<b>&amp;</b> \"q\" 'x' <script>", "日本", "{{.}}"}).Draw(t, "data"))
	case rkHeaders:
	default:
		s.Body = Str(genBody(t))
	}
	return s
}

// jsonError is the error of a JSON error response: an empty message is no error at all for the odd statuses.
func jsonError(msg string, status int) error {
	if msg == "" && status%2 > 0 {
		return nil
	}
	return errors.New(msg)
}
