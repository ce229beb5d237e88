package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"time"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"pgregory.net/rapid"
)

// ---- C49: hijacked connections ----

type hijackStep struct {
	Up   bool `json:"up,omitempty"`   // the client sends, otherwise the application
	Conn bool `json:"conn,omitempty"` // the application uses the connection, not the buffer
	Data Str  `json:"data"`
}

type hijackCase struct {
	Stack  []string     `json:"stack"`
	Common int          `json:"common"`
	Level  int          `json:"level"`
	Accept string       `json:"accept,omitempty"`
	Method string       `json:"method"`
	Body   Str          `json:"body"`
	Kind   int          `json:"kind"`             // 0 a connection; 1 a writer that cannot be hijacked, 2 one whose Hijack fails
	Early  int          `json:"early"`            // so many of the client's first steps are sent together with the request
	Adapt  bool         `json:"adapt,omitempty"`  // an adapted handler hijacks the connection itself
	Switch bool         `json:"switch,omitempty"` // that handler answers 101 itself before
	Later  bool         `json:"later,omitempty"`  // the application uses the connection after the request has been handled
	Steps  []hijackStep `json:"steps"`
}

var errNoHijack = errors.New("this connection cannot be hijacked")

type failHijacker struct{ *httptest.ResponseRecorder }

func (failHijacker) Hijack() (net.Conn, *bufio.ReadWriter, error) { return nil, nil, errNoHijack }

func runHijack(c *Ctx, hc hijackCase) error {
	sc := stackCase{Stack: hc.Stack, Level: hc.Level, Cors: corsConf{Any: true, Methods: []string{"GET", "POST"}}}
	ms := sc.middlewares(func(string) {})
	var logged []error
	m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(e error) { logged = append(logged, e) }})
	if err != nil {
		return err
	}
	k := min(hc.Common, len(ms))
	m.CommonMiddlewares(ms[:k]...)
	var mu sync.Mutex
	var first error
	calls := 0
	fail := func(f string, a ...any) {
		mu.Lock()
		defer mu.Unlock()
		if first == nil {
			first = fmt.Errorf("%v: %s", hc.Stack, fmt.Sprintf(f, a...))
		}
	}
	const patience = 15 * time.Second
	ended := make(chan struct{})
	script := func(conn net.Conn, rw *bufio.ReadWriter) {
		defer close(ended)
		defer conn.Close()
		_ = conn.SetDeadline(time.Now().Add(patience))
		for i, s := range hc.Steps {
			var err error
			if s.Up {
				b := make([]byte, len(s.Data))
				var r io.Reader = rw
				if s.Conn && rw.Reader.Buffered() == 0 {
					r = conn
				}
				if _, err = io.ReadFull(r, b); err == nil && string(b) != string(s.Data) {
					fail("step %d: the application reads %s, the client sent %s", i, clip(fmt.Sprintf("%q", b), 200), clip(fmt.Sprintf("%q", s.Data), 200))
					return
				}
			} else if s.Conn {
				_, err = conn.Write([]byte(s.Data))
			} else if _, err = rw.WriteString(string(s.Data)); err == nil {
				err = rw.Flush()
			}
			if err != nil {
				fail("step %d (%+v): %v", i, s.Up, err)
				return
			}
		}
	}
	m.HandleRequest(hc.Method, "/res", func(_ context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		if b, err := io.ReadAll(mc.R.Body); err != nil || string(b) != string(hc.Body) {
			fail("the handler reads the body %q (%v)", b, err)
		}
		take := func(conn net.Conn, rw *bufio.ReadWriter, err error) {
			mu.Lock()
			calls++
			n := calls
			mu.Unlock()
			switch {
			case n > 1:
				fail("the callback is called %d times", n)
			case hc.Kind > 0 && (err == nil || conn != nil || rw != nil):
				fail("the callback is called with %v, %v, %v although the connection cannot be hijacked", conn, rw, err)
			case hc.Kind == 2 && !errors.Is(err, errNoHijack):
				fail("the callback is called with the error %v instead of that of the connection", err)
			case hc.Kind == 0 && (err != nil || conn == nil || rw == nil):
				fail("the callback is called with %v, %v, %v", conn, rw, err)
			case hc.Kind == 0 && hc.Later:
				go script(conn, rw)
			case hc.Kind == 0:
				script(conn, rw)
			}
		}
		if hc.Adapt {
			return response.HandlerFuncAdaptor(func(w http.ResponseWriter, r *http.Request) {
				hj, ok := w.(http.Hijacker)
				if !ok {
					take(nil, nil, errNoHijack)
				} else {
					if hc.Switch && hc.Kind == 0 {
						w.Header().Set("Connection", "Upgrade")
						w.Header().Set("Upgrade", "own")
						w.Header().Set("X-Own", "value")
						w.WriteHeader(http.StatusSwitchingProtocols)
					}
					take(hj.Hijack())
				}
				if hc.Kind > 0 {
					http.Error(w, "this needs a connection", http.StatusNotImplemented)
				}
			}), nil
		}
		return response.NewHttpHijackConnectionResponse(take), nil
	}, ms[k:]...)
	head := http.Header{"X-Csrf-Token": {"stack-nonce"}, "Content-Type": {"text/plain"}, "Origin": {"https://app.test"}}
	if hc.Accept != "" {
		head.Set("Accept-Encoding", hc.Accept)
	}
	for _, n := range hc.Stack {
		c.Class("behind " + n)
	}
	if hc.Kind > 0 {
		c.Class("not possible")
		r := testReq(hc.Method, "/res", strings.NewReader(string(hc.Body)))
		r.Header = head
		rec := httptest.NewRecorder()
		if hc.Kind == 1 {
			m.ServeHTTP(rec, r)
		} else {
			m.ServeHTTP(failHijacker{rec}, r)
		}
		if calls != 1 {
			fail("the callback is called %d times (errors %v)", calls, logged)
		}
		if hc.Adapt {
			body, err := rec.Body.String(), error(nil)
			if enc := rec.Header().Get("Content-Encoding"); enc != "" {
				body, err = decode(enc, body)
			}
			if err != nil || rec.Code != http.StatusNotImplemented || body != "this needs a connection\n" {
				fail("the handler answers that it cannot hijack the connection, the client gets %d %q (%v)", rec.Code, body, err)
			}
		}
		return first
	}
	l := realServer()
	returned := make(chan struct{})
	served := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		defer close(returned)
		defer func() {
			if x := recover(); x != nil {
				fail("panic: %v", x)
			}
		}()
		m.ServeHTTP(w, r)
	})
	l.handler.Store(&served)
	conn, err := net.Dial("tcp", l.srv.Listener.Addr().String())
	if err != nil {
		return fmt.Errorf("harness error: %v", err)
	}
	defer conn.Close()
	_ = conn.SetDeadline(time.Now().Add(patience))
	var b strings.Builder
	fmt.Fprintf(&b, "%s /res HTTP/1.1\r\nHost: example.test\r\nContent-Length: %d\r\n", hc.Method, len(hc.Body))
	_ = head.Write(&b)
	b.WriteString("\r\n" + string(hc.Body))
	early := 0
	for early < len(hc.Steps) && early < hc.Early && hc.Steps[early].Up {
		b.WriteString(string(hc.Steps[early].Data))
		early++
	}
	if _, err = io.WriteString(conn, b.String()); err != nil {
		return fmt.Errorf("harness error: %v", err)
	}
	if hc.Later {
		<-returned // whatever the framework still does with the response is done
	}
	in := bufio.NewReader(conn)
	if hc.Adapt && hc.Switch {
		c.Class("the handler switches protocols before")
		resp, rerr := http.ReadResponse(in, nil)
		if err = rerr; err != nil {
			fail("the client gets no answer to the upgrade: %v", err)
		} else if resp.StatusCode != 101 || resp.Header.Get("Upgrade") != "own" || resp.Header.Get("X-Own") != "value" {
			fail("the client gets the answer %d %v to the upgrade", resp.StatusCode, resp.Header)
		}
	}
	for i, s := range hc.Steps[early:] {
		if err != nil {
			break
		}
		if s.Up {
			_, err = io.WriteString(conn, string(s.Data))
		} else {
			b := make([]byte, len(s.Data))
			n := 0
			if n, err = io.ReadFull(in, b); string(b[:n]) != string(s.Data) {
				fail("step %d: the client gets %s (%v), the application sent %s", early+i, clip(fmt.Sprintf("%q", b[:n]), 200), err, clip(fmt.Sprintf("%q", s.Data), 200))
			}
		}
		if err != nil {
			fail("step %d: %v", early+i, err)
			break
		}
	}
	if err == nil {
		rest, _ := io.ReadAll(in)
		if len(rest) > 0 {
			fail("the client gets %s more than the application sent", clip(fmt.Sprintf("%q", rest), 200))
		}
	}
	_ = conn.Close()
	<-returned
	mu.Lock()
	n := calls
	mu.Unlock()
	if n == 0 {
		fail("the callback is not called (errors %v)", logged)
	} else if first == nil {
		<-ended
	}
	mu.Lock()
	defer mu.Unlock()
	c.ClassIf(early > 0, "bytes together with the request")
	c.ClassIf(hc.Adapt, "adapted handler")
	c.ClassIf(hc.Later, "used after the request")
	if len(hc.Steps) > 1 && len(hc.Stack) > 0 {
		c.NonTrivial()
	}
	return first
}

func genHijack(t *rapid.T) hijackCase {
	hc := hijackCase{Common: rapid.IntRange(0, 6).Draw(t, "common"), Level: rapid.IntRange(-1, 9).Draw(t, "level"), Accept: rapid.SampledFrom([]string{"", "gzip", "deflate"}).Draw(t, "accept"),
		Method: rapid.SampledFrom([]string{"GET", "POST"}).Draw(t, "method"), Kind: max(0, rapid.IntRange(-4, 2).Draw(t, "kind")), Early: rapid.IntRange(0, 2).Draw(t, "early"), Later: rapid.Bool().Draw(t, "later"), Switch: rapid.Bool().Draw(t, "switch"), Adapt: rapid.IntRange(0, 2).Draw(t, "adapt") == 0}
	for _, n := range rapid.Permutation([]string{"panic", "errors", "cors", "security", "compress", "dump", "csrf", "authz"}).Draw(t, "order") {
		if rapid.IntRange(0, 2).Draw(t, n) == 0 {
			hc.Stack = append(hc.Stack, n)
		}
	}
	if hc.Method == "POST" && rapid.Bool().Draw(t, "hasbody") {
		hc.Body = Str(rapid.SampledFrom([]string{"body", strings.Repeat("long body ", 1000)}).Draw(t, "body"))
	}
	data := rapid.SampledFrom([]string{"x", "hello", "\x81\x00\xff\r\n\r\n", "HTTP/1.1 101 Switching Protocols\r\nUpgrade: x\r\nConnection: Upgrade\r\n\r\n", "GET / HTTP/1.1\r\nHost: x\r\n\r\n", strings.Repeat("0123456789abcdef", 1000)})
	for n := several(t, 0, 6, 60, "steps"); n > 0; n-- {
		hc.Steps = append(hc.Steps, hijackStep{rapid.Bool().Draw(t, "up"), rapid.Bool().Draw(t, "conn"), Str(data.Draw(t, "data"))})
	}
	return hc
}

func init() {
	register("C49", "Connections hijacked by a response behind any of eight middlewares, GET and POST with and without body, then 0-6 exchanges over the buffer or the connection, of which some of the client's arrive with the request and some take place after the request has been handled; recorders and writers that cannot be hijacked. Non-trivial: at least two exchanges behind a middleware.",
		3000, 40000, genHijack, runHijack)
}
