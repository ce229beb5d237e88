package main

import (
	"bytes"
	"compress/gzip"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"pgregory.net/rapid"
)

type eventSpec struct {
	Name  Str   `json:"name,omitempty"`
	ID    Str   `json:"id,omitempty"`
	Data  []Str `json:"data,omitempty"`
	Retry int   `json:"retry,omitempty"`
}

func (e eventSpec) real() response.ServerSentEvent {
	var d []string
	for _, x := range e.Data {
		d = append(d, string(x))
	}
	return response.ServerSentEvent{Name: string(e.Name), Id: string(e.ID), Data: d, Retry: e.Retry}
}

// received is what an EventSource hands to the page.
type received struct {
	Type, Data, LastID string
	Retry              int
}

// parseEvents is the event stream interpretation of the HTML standard.
func parseEvents(stream string) (out []received, lastID string, retry int) {
	stream = strings.TrimPrefix(stream, "\ufeff")
	stream = strings.ReplaceAll(stream, "\r\n", "\n")
	stream = strings.ReplaceAll(stream, "\r", "\n")
	lines := strings.Split(stream, "\n")
	lines = lines[:len(lines)-1] // what follows the last line break is incomplete
	var data strings.Builder
	typ, idBuf := "", ""
	for _, l := range lines {
		if l == "" {
			lastID = idBuf
			d := data.String()
			data.Reset()
			t := typ
			typ = ""
			if d == "" {
				continue
			}
			if t == "" {
				t = "message"
			}
			out = append(out, received{t, strings.TrimSuffix(d, "\n"), lastID, retry})
			continue
		}
		if strings.HasPrefix(l, ":") {
			continue
		}
		field, value, _ := strings.Cut(l, ":")
		value = strings.TrimPrefix(value, " ")
		switch field {
		case "event":
			typ = value
		case "data":
			data.WriteString(value + "\n")
		case "id":
			if !strings.Contains(value, "\x00") {
				idBuf = value
			}
		case "retry":
			if n, err := strconv.Atoi(value); err == nil && strings.Trim(value, "0123456789") == "" {
				retry = n
			}
		}
	}
	return
}

// expectEvents is what the generated events mean.
func expectEvents(evs []eventSpec) (out []received, lastID string, retry int) {
	for _, e := range evs {
		if e.ID != "" {
			lastID = string(e.ID)
		}
		if e.Retry > 0 {
			retry = e.Retry
		}
		if len(e.Data) == 0 {
			continue
		}
		r := received{Type: string(e.Name), LastID: lastID, Retry: retry}
		if r.Type == "" {
			r.Type = "message"
		}
		var ds []string
		for _, d := range e.Data {
			ds = append(ds, strings.ReplaceAll(strings.ReplaceAll(string(d), "\r\n", "\n"), "\r", "\n"))
		}
		r.Data = strings.Join(ds, "\n")
		out = append(out, r)
	}
	return
}

func http2Req(method, target string) *http.Request {
	r := newReq(method, target)
	r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/2.0", 2, 0
	return r
}

type eventsCase struct {
	Events []eventSpec `json:"events"`
	Plain  bool        `json:"plain"`
	Zip    bool        `json:"zip"`
}

func genEvent(t *rapid.T) eventSpec {
	var e eventSpec
	if rapid.Bool().Draw(t, "named") {
		e.Name = Str(rapid.SampledFrom([]string{"message", "tick", " spaced ", "data: x", ":c", "日本", "\xff"}).Draw(t, "name"))
	}
	if rapid.Bool().Draw(t, "hasID") {
		e.ID = Str(rapid.SampledFrom([]string{"1", "2", " 3", "id: 4", "ü", "0", "-1", "null", "00"}).Draw(t, "id"))
	}
	if rapid.IntRange(0, 2).Draw(t, "hasRetry") == 2 {
		e.Retry = rapid.SampledFrom([]int{1, 10, 3000, 1 << 40, -5}).Draw(t, "retry")
	}
	for n := several(t, 0, 3, 60, "nlines"); n > 0; n-- {
		d := ""
		for k := several(t, 0, 4, 60, "nparts"); k > 0; k-- {
			d += rapid.SampledFrom([]string{"x", "hello", " ", "\n", "\r\n", "\r", "data: fake", "event: evil", "id: 9", ":", "retry: 1", "\n\n", "\x00", "\ufeff", "日本", "\xff", "\t", strings.Repeat("long", 500)}).Draw(t, "part")
		}
		if rapid.IntRange(0, 800).Draw(t, "big") == 800 {
			d = strings.Repeat(d+"0123456789 ", rapid.SampledFrom([]int{100, 500, 3000, 6000}).Draw(t, "times"))
			d = d[:min(len(d), 140000)]
		}
		e.Data = append(e.Data, Str(d))
	}
	return e
}

func runEvents(c *Ctx, ec eventsCase) error {
	resp := response.HttpResponse(response.SSEHttpResponse(func(ctx context.Context, last string) <-chan response.ServerSentEvent {
		ch := make(chan response.ServerSentEvent, len(ec.Events))
		for _, e := range ec.Events {
			ch <- e.real()
		}
		close(ch)
		return ch
	}))
	r := http2Req("GET", "/events")
	if ec.Zip {
		var err error
		if resp, err = response.NewHttpCompressResponse(resp, 5); err != nil {
			return err
		}
		r.Header.Set("Accept-Encoding", "gzip")
	}
	s := record(resp, r, ec.Plain)
	if s.Err != nil {
		return fmt.Errorf("unexpected error %v", s.Err)
	}
	if s.Header.Get("Content-Encoding") == "gzip" {
		var err error
		if s.Body, err = decode("gzip", s.Body); err != nil {
			return fmt.Errorf("the body cannot be decoded: %v", err)
		}
	}
	got, gotID, gotRetry := parseEvents(s.Body)
	want, wantID, wantRetry := expectEvents(ec.Events)
	for _, e := range ec.Events {
		for _, d := range e.Data {
			c.ClassIf(strings.ContainsAny(string(d), "\r\n"), "line break in the data")
			if strings.ContainsAny(string(d), "\r\n:") || d == "" {
				c.NonTrivial()
			}
		}
	}
	for i := range want {
		if i >= len(got) || got[i] != want[i] {
			g := "nothing"
			if i < len(got) {
				g = fmt.Sprintf("%+q", got[i])
			}
			return fmt.Errorf("event %d is received as %s, want %+q (stream %q)", i, clip(g, 300), want[i], clip(s.Body, 500))
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d events are received, want %d (stream %q)", len(got), len(want), clip(s.Body, 500))
	}
	if gotID != wantID || gotRetry != wantRetry {
		return fmt.Errorf("after the stream the last id is %q and the retry time %d, want %q and %d", gotID, gotRetry, wantID, wantRetry)
	}
	return nil
}

// ---- C33 ----

type streamCase struct {
	N        int          `json:"n"`
	Size     int          `json:"size"`
	Cancel   int          `json:"cancel"` // cancel before event number Cancel (-1: never)
	FailAt   int          `json:"failAt"` // writes fail once event number FailAt-1 was flushed (-1: never)
	Stack    []string     `json:"stack"`
	Accept   string       `json:"accept"`
	Server   bool         `json:"server"` // a real HTTP/2 connection
	Proto    int          `json:"proto"`
	LastID   *string      `json:"lastID"`
	Headers  []kv         `json:"headers"`
	Cookies  []cookieSpec `json:"cookies"`
	Shapes   []int        `json:"shapes,omitempty"` // of the events, in turn
	Deferred bool         `json:"deferred"`         // the generator goes on sending after the end of the request
}

// event gives event number i, whose text contains the marker.
func (sc streamCase) event(i int, marker string) response.ServerSentEvent {
	e := response.ServerSentEvent{Data: []string{marker + strings.Repeat("x", sc.Size)}, Id: strconv.Itoa(i)}
	if len(sc.Shapes) == 0 {
		return e
	}
	switch sc.Shapes[i%len(sc.Shapes)] {
	case 1: // no id
		e.Id = ""
	case 2: // a name as well
		e.Name = "n"
	case 3: // nothing but a name
		e = response.ServerSentEvent{Name: marker}
	case 4: // nothing but an id
		e = response.ServerSentEvent{Id: marker}
	case 5:
		e.Retry = 10
	case 6: // many lines
		e.Data = append(e.Data, strings.Split(strings.Repeat("line,", 40), ",")...)
	case 7: // empty lines first
		e.Data = append([]string{"", ""}, e.Data...)
	case 8: // lines in one string
		e.Data[0] = "a\nb\r\n" + e.Data[0] + "\n"
	}
	return e
}

// flushWriter is a client that sees only flushed bytes.
type flushWriter struct {
	mu       sync.Mutex
	cond     *sync.Cond
	header   http.Header
	sent     http.Header
	status   int
	pending  bytes.Buffer
	flushed  bytes.Buffer
	failing  bool
	afterBad int
}

func newFlushWriter() *flushWriter {
	f := &flushWriter{header: http.Header{}}
	f.cond = sync.NewCond(&f.mu)
	return f
}
func (f *flushWriter) Header() http.Header { return f.header }
func (f *flushWriter) WriteHeader(s int) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.head(s)
}
func (f *flushWriter) head(s int) {
	if f.status == 0 {
		f.status = s
		f.sent = f.header.Clone()
	}
}
func (f *flushWriter) Write(b []byte) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.head(200)
	if f.failing {
		f.afterBad++
		return 0, errBroken
	}
	return f.pending.Write(b)
}
func (f *flushWriter) Flush() {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.head(200)
	_, _ = f.flushed.Write(f.pending.Bytes())
	f.pending.Reset()
	f.cond.Broadcast()
}
func (f *flushWriter) seen() string {
	f.mu.Lock()
	defer f.mu.Unlock()
	return partial(f.sent.Get("Content-Encoding"), f.flushed.Bytes())
}

// partial decodes the beginning of an encoded stream.
func partial(enc string, b []byte) string {
	switch enc {
	case "":
		return string(b)
	case "gzip":
		z, err := gzip.NewReader(bytes.NewReader(b))
		if err != nil {
			return ""
		}
		d, _ := io.ReadAll(z)
		return string(d)
	}
	d, _ := decode(enc, string(b))
	return d
}

const promptLimit = 30 * time.Second

type ctxKey string

func sseMiddlewares(names []string) []middleware.Middleware {
	var ms []middleware.Middleware
	for _, n := range names {
		switch n {
		case "compress":
			ms = append(ms, middleware.CompressResponse(5))
		case "security":
			ms = append(ms, middleware.SecurityHeaders(middleware.SecurityHeadersConfig{XSSProtectionEnabled: true}))
		case "panic":
			ms = append(ms, middleware.PanicRecover())
		case "errors":
			ms = append(ms, middleware.ErrJsonResponse())
		case "dump":
			ms = append(ms, middleware.RequestDumper(func(string) {}))
		}
	}
	return ms
}

func runStream(c *Ctx, sc streamCase) error {
	var mu sync.Mutex
	started, sends := 0, 0
	var gotLast string
	var gotValue any
	var slow error
	done := make(chan struct{}) // the response is over
	genDone := make(chan struct{})
	visible := func(string) bool { return true } // is the text at the client?
	cancel := func() {}
	var fail func()
	marker := func(i int) string { return fmt.Sprintf("#%d;", i) }
	await := func(text string) bool {
		limit := time.Now().Add(promptLimit)
		for n := 0; !visible(text); n++ {
			select {
			case <-done:
				return false
			default:
			}
			if time.Now().After(limit) {
				return false
			}
			if n < 100 {
				time.Sleep(20 * time.Microsecond)
			} else {
				time.Sleep(time.Millisecond)
			}
		}
		return true
	}
	gen := func(ctx context.Context, last string) <-chan response.ServerSentEvent {
		mu.Lock()
		started++
		gotLast = last
		gotValue = ctx.Value(ctxKey("k"))
		mu.Unlock()
		ch := make(chan response.ServerSentEvent)
		go func() {
			defer close(genDone)
			defer close(ch)
			for i := 0; i < sc.N; i++ {
				if i == sc.Cancel {
					cancel()
					if !sc.Server {
						select {
						case <-ctx.Done():
						case <-time.After(promptLimit):
							mu.Lock()
							slow = errors.New("the generator's context does not end with the request")
							mu.Unlock()
						}
					} else {
						<-ctx.Done()
					}
					if !sc.Deferred {
						return
					}
				}
				if i == sc.FailAt {
					fail()
				}
				select {
				case ch <- sc.event(i, marker(i)):
					mu.Lock()
					sends++
					mu.Unlock()
				case <-done:
					return
				}
				if sc.Cancel >= 0 && i >= sc.Cancel || sc.FailAt >= 0 && i >= sc.FailAt {
					continue
				}
				if !await(marker(i)) {
					mu.Lock()
					slow = fmt.Errorf("event %d did not reach the client before the next one was awaited", i)
					mu.Unlock()
					return
				}
			}
		}()
		return ch
	}
	var h response.HttpHeaders
	if sc.Headers != nil {
		h = response.NewHttpHeaders()
		for _, x := range sc.Headers {
			h.Set(x.K, string(x.V))
		}
	}
	var ck response.HttpCookies
	if sc.Cookies != nil {
		ck = response.NewHttpCookie()
		for _, x := range sc.Cookies {
			ck.Add(x.real())
		}
	}
	hh := handler.Handler(func(context.Context, path.MatchingContext) (response.HttpResponse, error) {
		switch {
		case sc.Cookies != nil:
			return response.SSEHttpResponseWithHeadersAndCookies(gen, h, ck), nil
		case sc.Headers != nil:
			return response.SSEHttpResponseWithHeaders(gen, h), nil
		}
		return response.SSEHttpResponse(gen), nil
	})
	ms := sseMiddlewares(sc.Stack)
	for i := len(ms) - 1; i >= 0; i-- {
		hh = ms[i](hh)
	}
	var logged []error
	root := serveThrough(hh, func(e error) { mu.Lock(); logged = append(logged, e); mu.Unlock() })
	reqHeader := http.Header{"Accept-Encoding": {sc.Accept}}
	if sc.LastID != nil {
		reqHeader.Set("Last-Event-Id", *sc.LastID)
	}
	status, sentHeader, body := 0, http.Header(nil), ""
	hung := errors.New("the response did not end")

	if sc.Server {
		var cmu sync.Mutex
		var got bytes.Buffer
		enc := ""
		visible = func(s string) bool {
			cmu.Lock()
			defer cmu.Unlock()
			return strings.Contains(partial(enc, got.Bytes()), s)
		}
		ctx, stop := context.WithCancel(context.Background())
		defer stop()
		cancel = stop
		over := make(chan struct{})
		srv := http2Server()
		f := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			defer close(over)
			root(w, r.WithContext(context.WithValue(r.Context(), ctxKey("k"), 42)))
		})
		srv.handler.Store(&f)
		req, err := http.NewRequestWithContext(ctx, "GET", srv.srv.URL+"/events", nil)
		if err != nil {
			return err
		}
		req.Header = reqHeader.Clone()
		noisyWire(req)
		res, err := srv.client.RoundTrip(req)
		if err != nil {
			if ctx.Err() == nil || sc.Cancel != 0 {
				return fmt.Errorf("the request failed: %v", err)
			}
		} else {
			cmu.Lock()
			enc = res.Header.Get("Content-Encoding")
			status, sentHeader = res.StatusCode, res.Header
			cmu.Unlock()
			buf := make([]byte, 4096)
			for {
				n, err := res.Body.Read(buf)
				cmu.Lock()
				got.Write(buf[:n])
				cmu.Unlock()
				if err != nil {
					break
				}
			}
			res.Body.Close()
		}
		<-over
		close(done)
		if sc.Cancel < 0 {
			d, err := decode(enc, got.String())
			if enc == "" {
				d, err = got.String(), nil
			}
			if err != nil {
				return fmt.Errorf("the body cannot be decoded: %v", err)
			}
			body = d
		}
	} else {
		w := newFlushWriter()
		visible = func(s string) bool { return strings.Contains(w.seen(), s) }
		fail = func() { w.mu.Lock(); w.failing = true; w.mu.Unlock() }
		r := newReq("GET", "/events")
		r.ProtoMajor, r.ProtoMinor, r.Proto = sc.Proto, 0, fmt.Sprintf("HTTP/%d.0", sc.Proto)
		r.Header = reqHeader.Clone()
		addNoise(r)
		ctx, stop := context.WithCancel(context.WithValue(r.Context(), ctxKey("k"), 42))
		defer stop()
		cancel = stop
		over := make(chan struct{})
		go func() {
			defer close(over)
			root(w, r.WithContext(ctx))
		}()
		select {
		case <-over:
		case <-time.After(promptLimit * time.Duration(2+sc.N)):
			return hung
		}
		close(done)
		w.mu.Lock()
		status, sentHeader = w.status, w.sent
		all := append(append([]byte(nil), w.flushed.Bytes()...), w.pending.Bytes()...)
		after := w.afterBad
		w.mu.Unlock()
		body = partial(sentHeader.Get("Content-Encoding"), all)
		if after > 1 {
			return fmt.Errorf("%d writes were made after the first one had failed", after-1)
		}
	}
	if started > 0 {
		<-genDone
	}
	mu.Lock()
	defer mu.Unlock()
	if sc.Proto != 2 && !sc.Server {
		c.Class("not HTTP/2")
		hasErrors := false
		for _, s := range sc.Stack {
			hasErrors = hasErrors || s == "errors"
		}
		_ = hasErrors
		if started != 0 {
			return errors.New("the generator was started for a request that is not HTTP/2")
		}
		if status != 500 || len(logged) != 1 || !errors.Is(logged[0], response.ErrNotHttp2Request) {
			return fmt.Errorf("a request that is not HTTP/2 got status %d and the errors %v, want 500 and ErrNotHttp2Request", status, logged)
		}
		return nil
	}
	if slow != nil {
		return slow
	}
	if started != 1 && !(sc.Server && sc.Cancel == 0) {
		return fmt.Errorf("the generator was started %d times", started)
	}
	if started == 1 {
		wantLast := ""
		if sc.LastID != nil {
			wantLast = *sc.LastID
		}
		if gotLast != wantLast {
			return fmt.Errorf("the generator got the last event id %q, want %q", gotLast, wantLast)
		}
		if gotValue != 42 {
			return errors.New("the generator did not get the request context")
		}
	}
	if sc.N > 1 {
		c.NonTrivial()
	}
	upTo := sc.N // events that have to be in the stream
	if sc.Cancel >= 0 && sc.Cancel < upTo {
		upTo = sc.Cancel
		c.Class("cancelled")
	}
	if sc.FailAt >= 0 && sc.FailAt < upTo {
		upTo = sc.FailAt
		c.Class("connection failed")
		if sends > sc.FailAt+2 {
			return fmt.Errorf("%d events were taken from the generator after the connection had failed", sends-sc.FailAt)
		}
	}
	if !(sc.Server && sc.Cancel >= 0) {
		for i := 0; i < upTo; i++ {
			if !strings.Contains(body, marker(i)) {
				return fmt.Errorf("event %d is not in the stream", i)
			}
		}
		if upTo < sc.N && (strings.Contains(body, marker(upTo)) || strings.Contains(body, marker(sc.N-1))) {
			return fmt.Errorf("an event was sent after the end of the request (event %d)", upTo)
		}
	}
	if sc.Server {
		c.Class("over HTTP/2")
	}
	if upTo > 0 && sentHeader != nil {
		enc := sentHeader.Get("Content-Encoding")
		c.ClassIf(enc != "", "encoded "+enc)
		if status != 200 {
			return fmt.Errorf("the status is %d", status)
		}
		want := map[string]string{"Content-Type": "text/event-stream", "Cache-Control": "no-cache"}
		for _, x := range sc.Headers {
			want[http.CanonicalHeaderKey(x.K)] = string(x.V)
		}
		ignore := []string{"Content-Encoding", "X-Content-Type-Options", "Connection", "X-Xss-Protection", "Date"}
		if err := checkHeaders(sentHeader, want, cookieLines(sc.Cookies), ignore...); err != nil {
			return err
		}
	}
	if len(logged) > 0 && sc.FailAt < 0 && sc.Cancel < 0 {
		return fmt.Errorf("unexpected errors %v", logged)
	}
	return nil
}

var http2Server = sync.OnceValue(func() *loopback {
	l := &loopback{}
	l.srv = httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { (*l.handler.Load())(w, r) }))
	l.srv.Config.ErrorLog = quietLog
	l.srv.EnableHTTP2 = true
	l.srv.StartTLS()
	tr := l.srv.Client().Transport.(*http.Transport)
	tr.DisableCompression = true
	l.client = tr
	return l
})

func init() {
	register("C32", "Streams of 0-6 events with any names, ids, retry times and 0-3 data lines with line breaks of all kinds, fields lookalikes, NUL, BOM and invalid UTF-8; written plainly or compressed and read by a parser written from the HTML standard. Non-trivial: a data line has a line break or a colon, or is empty.",
		15000, 200000, func(t *rapid.T) eventsCase {
			var c eventsCase
			for n := several(t, 0, 6, 200, "nevents"); n > 0; n-- {
				c.Events = append(c.Events, genEvent(t))
			}
			c.Plain = rapid.Bool().Draw(t, "plain")
			c.Zip = rapid.IntRange(0, 4).Draw(t, "zip") == 4
			return c
		}, runEvents)

	register("C33", "Generators of 0-6 events (0-5000 bytes, one or many lines, with and without name, id and retry time) that wait until the client has received each event before they give the next one, behind 0-3 middlewares (compression included), on a writer that tells flushed from buffered data or a real HTTP/2 connection, cancelled or disconnected before any event, or requested with another protocol. Non-trivial: more than one event.",
		1500, 15000, func(t *rapid.T) streamCase {
			sc := streamCase{N: several(t, 0, 6, 60, "n"), Size: rapid.SampledFrom([]int{0, 0, 10, 10, 700, 700, 5000, 5000, 70000}).Draw(t, "size"), Cancel: -1, FailAt: -1, Proto: 2}
			switch k := rapid.IntRange(0, 9).Draw(t, "end"); {
			case k < 2:
				sc.Cancel = rapid.IntRange(0, 5).Draw(t, "cancel")
			case k < 4:
				sc.FailAt = rapid.IntRange(0, 5).Draw(t, "failAt")
			case k == 4:
				sc.Proto = rapid.SampledFrom([]int{1, 1, 0, 3}).Draw(t, "proto")
			}
			sc.Stack = rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"compress", "security", "panic", "errors", "dump"}), 0, 3, rapid.ID[string]).Draw(t, "stack")
			sc.Accept = rapid.SampledFrom([]string{"gzip", "deflate", "identity", ""}).Draw(t, "accept")
			sc.Server = sc.Proto == 2 && sc.FailAt < 0 && rapid.IntRange(0, 4).Draw(t, "server") == 4
			if rapid.Bool().Draw(t, "hasLast") {
				v := rapid.SampledFrom([]string{"", "7", "a b", "0", "-1", "null", "é", "\"x\"", strings.Repeat("9", 300)}).Draw(t, "last")
				sc.LastID = &v
			}
			for _, x := range genHeaders(t, 2) {
				switch x.K {
				case "Cache-Control", "Content-Type", "content-type", "X-Content-Type-Options":
				default:
					sc.Headers = append(sc.Headers, x)
				}
			}
			sc.Cookies = genCookies(t, 2)
			sc.Shapes = rapid.SliceOfN(rapid.IntRange(0, 8), 0, 4).Draw(t, "shapes")
			sc.Deferred = rapid.Bool().Draw(t, "deferred")
			return sc
		}, runStream)
}
