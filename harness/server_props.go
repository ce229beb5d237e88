package main

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router"
	"github.com/ixtendio/gofre/router/path"
	"pgregory.net/rapid"
)

// ---- C50: earlier requests, later routes and other servers do not matter ----

const (
	srvOK = iota
	srvError
	srvPanic
	srvWritePanic
	srvNested // the handler has its own server serve the request of the next operation
)

type srvOp struct {
	Op  string   `json:"op"` // route, serve or flood
	On  int      `json:"on"`
	Pat int      `json:"pat,omitempty"`
	Req RouteReq `json:"req"`
	Out int      `json:"out,omitempty"`
	N   int      `json:"n,omitempty"` // of the requests of a flood
}

type srvServer struct {
	CI  bool `json:"ci,omitempty"`
	Mux bool `json:"mux,omitempty"` // a MuxHandler, not a bare router
}

type srvCase struct {
	Servers []srvServer `json:"servers"`
	Pats    []Pat       `json:"pats"`
	Ops     []srvOp     `json:"ops"`
}

type srvHit struct {
	Server, Pat int
	Vars        map[string]string
}

type srvState struct {
	srvServer
	h      http.Handler
	router *router.Router
	mux    *gofre.MuxHandler
	pats   []int // of the case, in the order of registration
	taken  map[string]bool
	errs   []error
}

type outKey struct{}

var errSrv = errors.New("this request fails")

// panicResponse panics when it is written.
type panicResponse struct{ response.HttpResponse }

func (panicResponse) Write(http.ResponseWriter, path.MatchingContext) error { panic("write") }

func runServers(c *Ctx, sc srvCase) error {
	var hits []srvHit
	var nested func()
	newServer := func(s srvServer) (*srvState, error) {
		st := &srvState{srvServer: s, taken: map[string]bool{}}
		log := func(err error) { st.errs = append(st.errs, err) }
		if !s.Mux {
			st.router = router.NewRouter(s.CI, log)
			st.h = st.router
			return st, nil
		}
		var err error
		st.mux, err = gofre.NewMuxHandler(&gofre.Config{CaseInsensitivePathMatch: s.CI, ErrLogFunc: log})
		st.h = st.mux
		return st, err
	}
	add := func(st *srvState, server, i int) {
		p := sc.Pats[i]
		names := varNames(p)
		read := func(mc path.MatchingContext) map[string]string {
			vars := map[string]string{}
			for _, n := range names {
				vars[n] = mc.PathVar(n)
			}
			return vars
		}
		var h handler.Handler = func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
			vars := read(mc)
			out, _ := ctx.Value(outKey{}).(int)
			hits = append(hits, srvHit{server, i, vars})
			switch out {
			case srvError:
				return nil, errSrv
			case srvPanic:
				panic("handler")
			case srvWritePanic:
				return panicResponse{response.PlainTextHttpResponse(299, "ok")}, nil
			case srvNested:
				n := len(hits) - 1
				nested()
				hits[n].Vars = read(mc)
			}
			return response.PlainTextHttpResponse(299, fmt.Sprintf("%d of %d", i, server)), nil
		}
		if st.mux != nil {
			st.mux.HandleRequest(p.Method, p.String(), h)
		} else {
			st.router.Handle(p.Method, p.String(), h)
		}
	}
	var servers []*srvState
	for _, s := range sc.Servers {
		st, err := newServer(s)
		if err != nil {
			return fmt.Errorf("the mux was not created: %v", err)
		}
		servers = append(servers, st)
	}
	served := 0
	routedAfter := false
	// serve has a server answer a request and compares with what its routes alone say
	serve := func(k, on int, q RouteReq, out int) error {
		st := servers[on]
		hits, st.errs = nil, nil
		do := func(h http.Handler, out int) (status int, body string, panicked any) {
			rec := httptest.NewRecorder()
			r := newReq(q.Method, string(q.Path))
			func() {
				defer func() { panicked = recover() }()
				h.ServeHTTP(rec, r.WithContext(context.WithValue(r.Context(), outKey{}, out)))
			}()
			return rec.Code, rec.Body.String(), panicked
		}
		status, body, panicked := do(st.h, out)
		got := append([]srvHit(nil), hits...)
		if out == srvNested && len(got) > 0 {
			got = got[:1]
		}
		var pats []Pat
		for _, i := range st.pats {
			pats = append(pats, sc.Pats[i])
		}
		where := fmt.Sprintf("operation %d, request %d of the run: %s %q to server %d (case-insensitive %v, %q): status %d, handlers %v, panic %v", k, served, q.Method, q.Path, on, st.CI, patStrings(pats), status, got, panicked)
		served++
		m := matching(pats, q.Method, string(q.Path), st.CI)
		if len(m) == 0 {
			c.Class("no route")
			if status != 404 || len(got) != 0 || panicked != nil {
				return fmt.Errorf("no route matches, want 404 and no handler; %s", where)
			}
			return nil
		}
		if len(got) != 1 || got[0].Server != on {
			return fmt.Errorf("want one handler of server %d; %s", on, where)
		}
		best := mostSpecific(pats, m, 0, st.CI)
		at := -1
		for _, b := range best {
			if st.pats[b] == got[0].Pat {
				at = b
			}
		}
		if at < 0 {
			return fmt.Errorf("want the handler of one of %v; %s", best, where)
		}
		segs, _ := normalise(string(q.Path))
		if !laid(pats[at].Segs, segs, st.CI, got[0].Vars) {
			return fmt.Errorf("the variables do not lay %q over the path; %s", pats[at], where)
		}
		want, wantBody, wantPanic, wantErrs := 299, fmt.Sprintf("%d of %d", got[0].Pat, on), false, 0
		switch out {
		case srvError:
			want, wantBody, wantErrs = 500, "", 1
		case srvPanic, srvWritePanic:
			wantPanic = true
		}
		c.Class([]string{"answered", "failed", "handler panicked", "response panicked", "nested"}[out])
		if wantPanic != (panicked != nil) || !wantPanic && (status != want || body != wantBody) || len(st.errs) != wantErrs {
			return fmt.Errorf("want status %d, body %q, panic %v, %d logged errors; got body %q, logged %v; %s", want, wantBody, wantPanic, wantErrs, body, st.errs, where)
		}
		// a server of the same routes that never served anything agrees
		fresh, err := newServer(st.srvServer)
		if err != nil {
			return fmt.Errorf("the mux was not created: %v", err)
		}
		for _, i := range st.pats {
			add(fresh, on, i)
		}
		hits = nil
		fs, fb, fp := do(fresh.h, srvOK)
		if fs != 299 || fp != nil || len(hits) != 1 || hits[0].Pat != got[0].Pat || fmt.Sprint(hits[0].Vars) != fmt.Sprint(got[0].Vars) {
			return fmt.Errorf("a new server with the same routes gives %d %q (panic %v), handlers %v; %s", fs, fb, fp, hits, where)
		}
		if len(servers) > 1 && routedAfter {
			c.NonTrivial()
		}
		return nil
	}
	for k := 0; k < len(sc.Ops); k++ {
		op := sc.Ops[k]
		on := op.On % len(servers)
		st := servers[on]
		switch op.Op {
		case "route":
			i := op.Pat % len(sc.Pats)
			key := sc.Pats[i].Method + shapeKey(sc.Pats[i].Segs, st.CI)
			if st.taken[key] {
				continue
			}
			st.taken[key] = true
			var refused any
			func() {
				defer func() { refused = recover() }()
				add(st, on, i)
			}()
			if refused != nil {
				return fmt.Errorf("operation %d: %s %q was refused by server %d (case-insensitive %v), which has %v: %v", k, sc.Pats[i].Method, sc.Pats[i], on, st.CI, st.pats, refused)
			}
			st.pats = append(st.pats, i)
			if served > 0 {
				routedAfter = true
				c.Class("route added after a request")
			}
		case "serve":
			nested = func() {
				if k+1 < len(sc.Ops) {
					q := sc.Ops[k+1].Req
					if sc.Ops[k+1].Op == "serve" {
						r := newReq(q.Method, string(q.Path))
						servers[sc.Ops[k+1].On%len(servers)].h.ServeHTTP(httptest.NewRecorder(), r)
					}
				}
			}
			if err := serve(k, on, op.Req, op.Out); err != nil {
				return err
			}
		case "flood":
			c.Class("flood of requests")
			for n := 0; n < op.N; n++ {
				q := op.Req
				q.Path = Str(strings.ReplaceAll(string(q.Path), floodMark, fmt.Sprint(n)))
				if err := serve(k, on, q, srvOK); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

// floodMark stands for the number of the request within a flood.
const floodMark = "<n>"

func genServers(t *rapid.T) srvCase {
	var sc srvCase
	for n := rapid.IntRange(1, 3).Draw(t, "nservers"); n > 0; n-- {
		sc.Servers = append(sc.Servers, srvServer{rapid.Bool().Draw(t, "ci"), rapid.Bool().Draw(t, "mux")})
	}
	methods := []string{"GET", "GET", "GET", "POST"}
	var base []string
	sc.Pats, base = genPatsFor(t, rapid.Bool().Draw(t, "recase"), 7, 4, methods)
	var asked []RouteReq
	for n := several(t, 4, 16, 40, "nops"); n > 0; n-- {
		op := srvOp{On: rapid.IntRange(0, len(sc.Servers)-1).Draw(t, "on")}
		switch rapid.IntRange(0, 9).Draw(t, "kind") {
		case 0, 1, 2, 3:
			op.Op, op.Pat = "route", rapid.IntRange(0, len(sc.Pats)-1).Draw(t, "pat")
		default:
			op.Op = "serve"
			if len(asked) > 0 && rapid.IntRange(0, 2).Draw(t, "again") > 0 {
				op.Req = rapid.SampledFrom(asked).Draw(t, "asked")
				if rapid.IntRange(0, 3).Draw(t, "othercase") == 3 {
					op.Req.Path = Str(flipCase(string(op.Req.Path)))
				}
			} else {
				op.Req = RouteReq{rapid.SampledFrom(methods).Draw(t, "rm"), Str(genPathFrom(t, sc.Pats, base))}
				if transientTooLong(string(op.Req.Path)) {
					op.Req.Path = "/a"
				}
				asked = append(asked, op.Req)
			}
			op.Out = max(0, rapid.IntRange(-3, srvNested).Draw(t, "out"))
			if rapid.IntRange(0, 59).Draw(t, "flood") == 59 {
				op.Op, op.Out = "flood", 0
				op.N = rapid.SampledFrom([]int{10, 70, 140, 300}).Draw(t, "floodn")
				op.Req.Path = Str(strings.Replace(string(op.Req.Path), "a", floodMark, 1))
			}
		}
		sc.Ops = append(sc.Ops, op)
	}
	return sc
}

func init() {
	register("C50", "Histories of 4-16 (now and then 40) operations over 1-3 servers (bare routers and muxes, each case-sensitive or not): a route from a shared pool of 1-8 related patterns is added, a request served (its handler answers, fails, panics, answers with a response that panics, or has another request served meanwhile), or 10-300 requests that differ in one segment are served. Requests recur, also in another letter case, before and after the routes that match them are added. Every answer is compared with the model of the routes its server has at that moment and with a new server of the same routes. Non-trivial: several servers, a route added after a request was served, and a request a route matches.",
		6000, 90000, genServers, runServers)
}
