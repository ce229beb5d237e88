package main

import (
	"context"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"regexp"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/ixtendio/gofre/handler"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router"
	"github.com/ixtendio/gofre/router/path"
	"pgregory.net/rapid"
)

// ---- the reference model of path patterns ----

const (
	kLit  = "lit"
	kCVar = "cvar"
	kVar  = "var"
	kGlob = "glob"
	kOne  = "one"
	kMany = "many"
)

var kindRank = map[string]int{kLit: 1, kCVar: 2, kVar: 3, kGlob: 4, kOne: 5, kMany: 6}

// PSeg is one segment of a pattern. Val is the literal, the glob or the regular
// expression; Name the variable's name.
type PSeg struct {
	Kind string `json:"k"`
	Val  Str    `json:"v,omitempty"`
	Name string `json:"n,omitempty"`
}

func (s PSeg) String() string {
	switch s.Kind {
	case kLit, kGlob:
		return string(s.Val)
	case kVar:
		return "{" + s.Name + "}"
	case kCVar:
		return "{" + s.Name + ":" + string(s.Val) + "}"
	case kOne:
		return "*"
	}
	return "**"
}

// Pat is a pattern together with the method it is registered for.
type Pat struct {
	Method string `json:"m"`
	Segs   []PSeg `json:"s"`
	Slash  bool   `json:"slash,omitempty"` // written with a trailing slash
}

func (p Pat) String() string {
	if len(p.Segs) == 0 {
		return "/"
	}
	var sb strings.Builder
	for _, s := range p.Segs {
		sb.WriteString("/")
		sb.WriteString(s.String())
	}
	if p.Slash {
		sb.WriteString("/")
	}
	return sb.String()
}

func foldEq(a, b rune) bool {
	if a == b {
		return true
	}
	for r := unicode.SimpleFold(a); r != a; r = unicode.SimpleFold(r) {
		if r == b {
			return true
		}
	}
	return false
}

// canonFold maps strings that are equal under simple case folding to one string.
func canonFold(s string) string {
	return strings.Map(func(r rune) rune {
		m := r
		for x := unicode.SimpleFold(r); x != r; x = unicode.SimpleFold(x) {
			m = min(m, x)
		}
		return m
	}, s)
}

// globMatch is the textbook dynamic program over characters.
func globMatch(text, glob string, ci bool) bool {
	t, g := []rune(text), []rune(glob)
	ok := make([][]bool, len(g)+1)
	for i := range ok {
		ok[i] = make([]bool, len(t)+1)
	}
	ok[0][0] = true
	for i := 1; i <= len(g); i++ {
		for j := 0; j <= len(t); j++ {
			switch {
			case g[i-1] == '*':
				ok[i][j] = ok[i-1][j] || (j > 0 && ok[i][j-1])
			case j > 0 && (g[i-1] == '?' || g[i-1] == t[j-1] || (ci && foldEq(g[i-1], t[j-1]))):
				ok[i][j] = ok[i-1][j-1]
			}
		}
	}
	return ok[len(g)][len(t)]
}

func (s PSeg) matches(seg string, ci bool) bool {
	switch s.Kind {
	case kLit:
		if ci {
			return strings.EqualFold(seg, string(s.Val))
		}
		return seg == string(s.Val)
	case kVar, kOne, kMany:
		return true
	case kGlob:
		return globMatch(seg, string(s.Val), ci)
	case kCVar:
		re := string(s.Val)
		if ci {
			re = "(?i)" + re
		}
		return cachedRegexp(re).MatchString(seg)
	}
	return false
}

var regexpCache = map[string]*regexp.Regexp{}

func cachedRegexp(s string) *regexp.Regexp {
	r := regexpCache[s]
	if r == nil {
		r = regexp.MustCompile(s)
		regexpCache[s] = r
	}
	return r
}

// laid tells whether the pattern can be laid over the segments so that
// (unless vars is nil) every variable gets the text it has in vars: a dynamic
// program over pattern and path positions. Variable names are unique.
func laid(p []PSeg, segs []string, ci bool, vars map[string]string) bool {
	reach := make([]bool, len(segs)+1)
	reach[0] = true
	for i, s := range p {
		next := make([]bool, len(segs)+1)
		if s.Kind == kMany {
			open := false
			for j := range next {
				if i == len(p)-1 {
					next[j] = open // a final ** takes one segment or more
					open = open || reach[j]
				} else {
					open = open || reach[j]
					next[j] = open
				}
			}
		} else {
			for j := 0; j < len(segs); j++ {
				if !reach[j] || !s.matches(segs[j], ci) {
					continue
				}
				if vars != nil && s.Name != "" && vars[s.Name] != segs[j] {
					continue
				}
				next[j+1] = true
			}
		}
		reach = next
	}
	return reach[len(segs)]
}

func patMatches(p []PSeg, segs []string, ci bool) bool { return laid(p, segs, ci, nil) }

const maxSegs = 19

// normalise is the reference for request paths: empty segments vanish and ".."
// removes the segment before it. ok is false when more than 19 segments remain.
func normalise(p string) (segs []string, ok bool) {
	for _, s := range strings.Split(p, "/") {
		switch s {
		case "":
		case "..":
			if len(segs) > 0 {
				segs = segs[:len(segs)-1]
			}
		default:
			segs = append(segs, s)
		}
	}
	return segs, len(segs) <= maxSegs
}

// transient tells whether the path has more than 19 segments before a later ".."
// shortens it again (what happens then is unspecified).
func transientTooLong(p string) bool {
	n, long := 0, false
	for _, s := range strings.Split(p, "/") {
		switch s {
		case "":
		case "..":
			if n > 0 {
				n--
			}
		default:
			n++
			long = long || n > maxSegs
		}
	}
	return long && n <= maxSegs
}

// shapeKey identifies patterns that may not be registered together.
func shapeKey(p []PSeg, ci bool) string {
	var sb strings.Builder
	for _, s := range p {
		v := string(s.Val)
		if ci && s.Kind != kCVar {
			v = canonFold(v)
		}
		if s.Kind == kVar || s.Kind == kOne || s.Kind == kMany {
			v = ""
		}
		fmt.Fprintf(&sb, "/%s=%q", s.Kind, v)
	}
	return sb.String()
}

func segKey(s PSeg, ci bool) string { return shapeKey([]PSeg{s}, ci) }

// mostSpecific returns the patterns of cand (indices into pats, all matching)
// that the rules allow to be selected. Sibling segments of the same kind are
// not ranked among each other by the property.
func mostSpecific(pats []Pat, cand []int, depth int, ci bool) []int {
	if len(cand) <= 1 {
		return cand
	}
	best := 99
	for _, i := range cand {
		if len(pats[i].Segs) > depth {
			if r := kindRank[pats[i].Segs[depth].Kind]; r < best {
				best = r
			}
		}
	}
	if best == 99 {
		return cand
	}
	groups := map[string][]int{}
	var order []string
	for _, i := range cand {
		if len(pats[i].Segs) <= depth || kindRank[pats[i].Segs[depth].Kind] != best {
			continue
		}
		k := segKey(pats[i].Segs[depth], ci)
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], i)
	}
	var out []int
	for _, k := range order {
		out = append(out, mostSpecific(pats, groups[k], depth+1, ci)...)
	}
	return out
}

// ---- driving the router ----

type hit struct {
	Index int
	Vars  map[string]string
}

type routeResult struct {
	Status int
	Hits   []hit
}

func (r routeResult) String() string { return fmt.Sprintf("status %d, handlers %v", r.Status, r.Hits) }

// table is a router whose handlers record that they ran.
type table struct {
	r    *router.Router
	hits []hit
	pats []Pat
}

func newTable(ci bool) *table {
	return &table{r: router.NewRouter(ci, func(error) {})}
}

// add registers pattern i; it reports the panic with which the router refused it.
func (t *table) add(i int, p Pat) (refused any) {
	names := varNames(p)
	defer func() { refused = recover() }()
	t.r.Handle(p.Method, p.String(), recordHandler(&t.hits, i, names))
	return nil
}

func varNames(p Pat) []string {
	names := []string{"nosuchvar", "", "id", "Id", "x", "v", "v1"}
	for _, s := range p.Segs {
		if s.Name != "" {
			names = append(names, s.Name, flipCase(s.Name), s.Name+"1", s.Name[:len(s.Name)-1])
		}
	}
	return names
}

func recordHandler(hits *[]hit, i int, names []string) handler.Handler {
	return func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		vars := map[string]string{}
		for _, n := range names {
			vars[n] = mc.PathVar(n)
		}
		*hits = append(*hits, hit{i, vars})
		return response.PlainTextHttpResponse(299, "ok"), nil
	}
}

func newReq(method, p string) *http.Request {
	r := &http.Request{
		Method: method, URL: &url.URL{Path: p}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Host: "example.test", RequestURI: p, Body: http.NoBody, RemoteAddr: "192.0.2.1:1234",
	}
	if n := curNoise.Load(); n != nil && n.Query != "" {
		r.URL.RawQuery = n.Query
		r.RequestURI += "?" + n.Query
	}
	return addNoise(r)
}

func (t *table) serve(method, p string) routeResult {
	enc := 0
	if n := curNoise.Load(); n != nil {
		enc = n.Enc
	}
	return t.serveEncoded(method, p, enc)
}

// serveEncoded sends a request whose path was percent-encoded by the client, unless enc is 0.
func (t *table) serveEncoded(method, p string, enc int) routeResult {
	t.hits = nil
	w := httptest.NewRecorder()
	r := newReq(method, p)
	if enc > 0 {
		// net/http hands the decoded path over, with the spelling of the client beside it
		r.URL.RawPath = encodePath(p, enc)
		r.RequestURI = r.URL.RequestURI()
	}
	t.r.ServeHTTP(w, r)
	return routeResult{Status: w.Code, Hits: t.hits}
}

// ---- generators ----

var (
	litPool  = []string{"a", "b", "c", "ab", "abc", "bc", "A", "Ab", "12", "é", "a.b", ".", "x-y", "Ⱥb", "ß", "a:b", "k", "s", "ſ", "σ", "ς", "...", "..;", "%2e%2e", "a%2fb", "K"}
	globPool = []string{"a*", "*b", "a?", "?", "??", "a*c", "*?", "?b*c", "*b*", "a*b*c", "?*", "é*", "*1?", "A*", "a*bc", "Ⱥ*", "*.b", "k?*", "*-?", "a:?", "*a*", "*A*", "*B*", "*B", "?B", "..?"}
	rePool   = []string{"^[0-9]+$", "^[a-c]+$", "^a", "b$", "^[0-9]{2}$", "^(a|b)+$", "[b1]", "^.$", `^\d+$`, `^(?:a|b)+:?`, "^[^:]*$", "^[a-z]{1,2}", "^a:b$", "^a*b?c*$", "^(ⱥ|é)", "^[A-Z]+$", "^ab|bc$", `^a\d*b?$`, `^[bc]\w*$`, `\.`, `^\D+$`, "^[A-C]+$", "^[0-9]*", "c*", "x*$", "a?", "^(?:12)?"}
)

func genSeg(t *rapid.T, n int) PSeg {
	switch rapid.SampledFrom([]string{kLit, kLit, kLit, kCVar, kVar, kVar, kGlob, kGlob, kOne, kMany, kMany}).Draw(t, "kind") {
	case kLit:
		return PSeg{Kind: kLit, Val: Str(rapid.SampledFrom(litPool).Draw(t, "lit"))}
	case kCVar:
		return PSeg{Kind: kCVar, Val: Str(rapid.SampledFrom(rePool).Draw(t, "re")), Name: rapid.SampledFrom([]string{"v", "w"}).Draw(t, "style")}
	case kVar:
		return PSeg{Kind: kVar, Name: rapid.SampledFrom([]string{"v", "w"}).Draw(t, "style")}
	case kGlob:
		return PSeg{Kind: kGlob, Val: Str(rapid.SampledFrom(globPool).Draw(t, "glob"))}
	case kOne:
		return PSeg{Kind: kOne}
	}
	return PSeg{Kind: kMany}
}

// fixSegs renames variables apart and removes consecutive "**" (not a valid pattern).
func fixSegs(segs []PSeg) []PSeg {
	var out []PSeg
	for _, s := range segs {
		if s.Kind == kMany && len(out) > 0 && out[len(out)-1].Kind == kMany {
			continue
		}
		if s.Kind == kVar || s.Kind == kCVar {
			s.Name = varName(s.Name, len(out))
		}
		out = append(out, s)
	}
	if len(out) > maxSegs {
		out = out[:maxSegs]
	}
	return out
}

// closeNames are names that a sloppy comparison mixes up.
var closeNames = []string{"id", "Id", "ID", "iD", "i", "d", "idid", "id1", "id10", "x", "X", "xx", "a", "A", "ab", "aB", "b", "é", "É"}

// varName gives the variable at a position a name, in the style of the old name.
func varName(old string, pos int) string {
	if strings.HasPrefix(old, "v") {
		return fmt.Sprintf("v%d", pos)
	}
	return closeNames[pos%len(closeNames)]
}

func genSegs(t *rapid.T, maxLen int) []PSeg {
	n := rapid.IntRange(0, maxLen).Draw(t, "len")
	if maxLen > 10 {
		n = rapid.IntRange(max(0, maxLen-12), maxLen).Draw(t, "len")
	}
	segs := make([]PSeg, 0, n)
	onlyVars := maxLen > 10 && rapid.IntRange(0, 3).Draw(t, "onlyvars") == 3
	for i := 0; i < n; i++ {
		if onlyVars && rapid.IntRange(0, 15).Draw(t, "other") < 15 {
			segs = append(segs, PSeg{Kind: kVar, Name: "v"})
			continue
		}
		segs = append(segs, genSeg(t, i))
	}
	return fixSegs(segs)
}

// genRelated draws a pattern that shares structure with earlier ones.
func genRelated(t *rapid.T, prev [][]PSeg, maxLen int) []PSeg {
	if len(prev) == 0 || rapid.IntRange(0, 3).Draw(t, "fresh") == 0 {
		return genSegs(t, maxLen)
	}
	base := append([]PSeg(nil), rapid.SampledFrom(prev).Draw(t, "base")...)
	for k := rapid.IntRange(1, 2).Draw(t, "edits"); k > 0; k-- {
		switch rapid.IntRange(0, 4).Draw(t, "edit") {
		case 0: // truncate
			if len(base) > 0 {
				base = base[:rapid.IntRange(0, len(base)-1).Draw(t, "cut")]
			}
		case 1: // extend
			base = append(base, genSeg(t, len(base)))
		case 2: // insert
			i := rapid.IntRange(0, len(base)).Draw(t, "at")
			base = append(base[:i:i], append([]PSeg{genSeg(t, i)}, base[i:]...)...)
		default: // replace
			if len(base) > 0 {
				i := rapid.IntRange(0, len(base)-1).Draw(t, "at")
				base[i] = genSeg(t, i)
			}
		}
	}
	if len(base) > maxLen+2 {
		base = base[:maxLen+2]
	}
	if rapid.Bool().Draw(t, "othernames") {
		for i := range base {
			if base[i].Name != "" {
				base[i].Name = "w"
			}
		}
	}
	return fixSegs(base)
}

// genAbstraction draws a pattern that matches the given path: every segment stays
// or becomes a variable, constraint, glob or *, runs become **, and ** that stand
// for nothing are put in between.
func genAbstraction(t *rapid.T, base []string) []PSeg {
	var out []PSeg
	keep := rapid.IntRange(0, 3).Draw(t, "keep")
	for i := 0; i < len(base); i++ {
		if rapid.IntRange(0, 3).Draw(t, "same") < keep {
			out = append(out, PSeg{Kind: kLit, Val: Str(base[i])})
			continue
		}
		switch rapid.IntRange(0, 7).Draw(t, "abs") {
		case 0:
			out = append(out, PSeg{Kind: kLit, Val: Str(base[i])})
		case 1:
			out = append(out, PSeg{Kind: kVar, Name: "v"})
		case 2:
			out = append(out, PSeg{Kind: kOne})
		case 3:
			res := []string{}
			for _, re := range rePool {
				if cachedRegexp(re).MatchString(base[i]) {
					res = append(res, re)
				}
			}
			if len(res) == 0 {
				out = append(out, PSeg{Kind: kVar, Name: "v"})
			} else {
				out = append(out, PSeg{Kind: kCVar, Val: Str(rapid.SampledFrom(res).Draw(t, "re")), Name: "v"})
			}
		case 4:
			r := []rune(base[i])
			a := rapid.IntRange(0, len(r)).Draw(t, "ga")
			b := rapid.IntRange(a, len(r)).Draw(t, "gb")
			mid := "*"
			if b > a && rapid.Bool().Draw(t, "gq") {
				mid = strings.Repeat("?", b-a)
			}
			g := string(r[:a]) + mid + string(r[b:])
			switch {
			case g == "*":
				out = append(out, PSeg{Kind: kOne})
			case strings.Contains(g, "**"):
				out = append(out, PSeg{Kind: kVar, Name: "v"})
			default:
				out = append(out, PSeg{Kind: kGlob, Val: Str(g)})
			}
		case 5, 6:
			out = append(out, PSeg{Kind: kMany})
			i += rapid.IntRange(0, 2).Draw(t, "run")
		default:
			if i < len(base)-1 {
				out = append(out, PSeg{Kind: kMany})
			}
			out = append(out, PSeg{Kind: kLit, Val: Str(base[i])})
		}
	}
	return fixSegs(out)
}

// litPattern tells whether the text is a literal when written in a pattern.
func litPattern(s string) bool { return !strings.ContainsAny(s, "*?{}") }

func genPats(t *rapid.T, ci bool, maxPats, maxLen int, methods []string) []Pat {
	pats, _ := genPatsFor(t, ci, maxPats, maxLen, methods)
	return pats
}

// genPatsFor draws a route table and, in half of the cases, a path for which most
// of its patterns were made.
func genPatsFor(t *rapid.T, ci bool, maxPats, maxLen int, methods []string) ([]Pat, []string) {
	n := rapid.IntRange(1, maxPats).Draw(t, "npats")
	var pats []Pat
	var prev [][]PSeg
	var base []string
	if rapid.Bool().Draw(t, "forpath") {
		base = rapid.SliceOfN(rapid.SampledFrom(wildSegs).Filter(litPattern), 1, maxLen).Draw(t, "base")
	}
	seen := map[string]bool{}
	if rapid.IntRange(0, 14).Draw(t, "wide") == 14 {
		m := rapid.SampledFrom(methods).Draw(t, "method")
		for _, segs := range genWide(t) {
			if k := m + shapeKey(segs, ci); !seen[k] {
				seen[k] = true
				prev = append(prev, segs)
				pats = append(pats, Pat{Method: m, Segs: segs})
			}
		}
	}
	if ci && rapid.IntRange(0, 2).Draw(t, "recased") == 2 {
		m := rapid.SampledFrom(methods).Draw(t, "method")
		list, path := genRecased(t)
		base = path
		for _, segs := range list {
			if k := m + shapeKey(segs, ci); !seen[k] {
				seen[k] = true
				prev = append(prev, segs)
				pats = append(pats, Pat{Method: m, Segs: segs})
			}
		}
	}
	for i := 0; i < n; i++ {
		var segs []PSeg
		if base != nil && rapid.IntRange(0, 4).Draw(t, "other") < 4 {
			segs = genAbstraction(t, base)
		} else {
			segs = genRelated(t, prev, maxLen)
		}
		m := rapid.SampledFrom(methods).Draw(t, "method")
		k := m + shapeKey(segs, ci)
		if seen[k] {
			continue
		}
		seen[k] = true
		prev = append(prev, segs)
		pats = append(pats, Pat{Method: m, Segs: segs, Slash: len(segs) > 0 && rapid.IntRange(0, 7).Draw(t, "slash") == 0})
	}
	return pats, base
}

// genRecased draws patterns in which the same segments are spelled in different
// cases, and a path that several of them match.
func genRecased(t *rapid.T) (list [][]PSeg, base []string) {
	prefix := genSegs(t, 1)
	word := rapid.SampledFrom([]string{"ab", "aB", "AB", "zaZ"}).Draw(t, "word")
	var globs []string
	for i := range word {
		globs = append(globs, word[:i]+"*", word[:i]+"?"+word[i+1:], word[:i]+"*"+word[i+1:], "*"+word[i:])
	}
	tails := [][]PSeg{{}, {{Kind: kLit, Val: "x"}}, {{Kind: kMany}}, {{Kind: kOne}}, {{Kind: kVar, Name: "v"}}, {{Kind: kLit, Val: "x"}, {Kind: kOne}}, {{Kind: kMany}, {Kind: kLit, Val: "y"}}}
	for n := rapid.IntRange(3, 8).Draw(t, "recasedn"); n > 0; n-- {
		g := rapid.SampledFrom(globs).Draw(t, "glob")
		if rapid.Bool().Draw(t, "recase") {
			g = flipCase(g)
		}
		s := PSeg{Kind: kGlob, Val: Str(g)}
		if g == "*" {
			s = PSeg{Kind: kOne}
		}
		list = append(list, fixSegs(append(append(append([]PSeg(nil), prefix...), s), rapid.SampledFrom(tails).Draw(t, "tail")...)))
	}
	for _, seg := range instantiate(t, prefix) {
		if !litPattern(seg) {
			seg = "q" // (the path is also used to make further patterns)
		}
		base = append(base, seg)
	}
	return list, append(base, word, rapid.SampledFrom([]string{"x", "y", "z"}).Draw(t, "rest"))
}

// genWide draws many patterns that differ in the segment after a common prefix.
func genWide(t *rapid.T) [][]PSeg {
	prefix := genSegs(t, 2)
	n := rapid.IntRange(10, 80).Draw(t, "n")
	step := rapid.SampledFrom([]int{1, 7, 37, -1}).Draw(t, "step")
	form := rapid.SampledFrom([]string{"n%d", "%d", "%03d", "%dn", "item-%d-x"}).Draw(t, "form")
	globs, deep := rapid.IntRange(2, 12).Draw(t, "globs"), rapid.IntRange(2, 5).Draw(t, "deep")
	var out [][]PSeg
	for i := 0; i < n; i++ {
		k := (i*step%83 + 83) % 83
		s := PSeg{Kind: kLit, Val: Str(fmt.Sprintf(form, k))}
		switch {
		case k%globs == 0:
			s = PSeg{Kind: kGlob, Val: s.Val + "*"}
		case k%11 == 3:
			s = PSeg{Kind: kCVar, Val: Str(fmt.Sprintf("^%d[0-9]*$", k)), Name: "v"}
		}
		segs := append(append([]PSeg(nil), prefix...), s)
		if k%deep == 1 {
			segs = append(segs, genSeg(t, len(segs)))
		}
		out = append(out, fixSegs(segs))
	}
	return out
}

var wildSegs = []string{"a", "b", "c", "ab", "abc", "bc", "A", "Ab", "AB", "12", "1", "123", "é", "É", "a.b", "x-y", "aXc", "aéc", "bb", "abbc", "z", ".", "...", "aa", "Ⱥb", "ⱥb", "ⱥ", "ß", "a:b", "a:", "K", "\u212a", "**", "{v0}", "x-y-z", "..;", "%2e%2e", "..a", ".. ", "a+b", "a%20b", "%"}

// instantiate draws request segments that the pattern probably matches.
func instantiate(t *rapid.T, p []PSeg) []string {
	var out []string
	for _, s := range p {
		switch s.Kind {
		case kLit:
			out = append(out, string(s.Val))
		case kMany:
			most := 3
			if rapid.IntRange(0, 9).Draw(t, "run") == 9 {
				most = 14
			}
			for n := rapid.IntRange(0, most).Draw(t, "many"); n > 0; n-- {
				out = append(out, rapid.SampledFrom(wildSegs).Draw(t, "seg"))
			}
		case kGlob:
			var sb strings.Builder
			for _, r := range string(s.Val) {
				switch r {
				case '*':
					sb.WriteString(rapid.SampledFrom([]string{"", "b", "ab", "bcb", "é"}).Draw(t, "star"))
				case '?':
					sb.WriteString(rapid.SampledFrom([]string{"b", "a", "1", "é"}).Draw(t, "q"))
				default:
					sb.WriteRune(r)
				}
			}
			if sb.Len() == 0 {
				sb.WriteString("b")
			}
			out = append(out, sb.String())
		case kCVar:
			out = append(out, rapid.SampledFrom([]string{"12", "a", "ab", "b", "1", "abc", "007"}).Draw(t, "cv"))
		default:
			out = append(out, rapid.SampledFrom(wildSegs).Draw(t, "seg"))
		}
	}
	return out
}

func flipCase(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsUpper(r) {
			return unicode.ToLower(r)
		}
		return unicode.ToUpper(r)
	}, s)
}

// genPath draws a request path for a route table.
func genPath(t *rapid.T, pats []Pat) string { return genPathFrom(t, pats, nil) }

func genPathFrom(t *rapid.T, pats []Pat, base []string) string {
	var segs []string
	if base != nil && rapid.IntRange(0, 2).Draw(t, "base") > 0 {
		segs = append(segs, base...)
	} else if rapid.IntRange(0, 5).Draw(t, "wild") == 0 {
		segs = rapid.SliceOfN(rapid.SampledFrom(wildSegs), 0, 6).Draw(t, "segs")
	} else {
		segs = instantiate(t, rapid.SampledFrom(pats).Draw(t, "for").Segs)
	}
	switch rapid.IntRange(0, 9).Draw(t, "mut") {
	case 0:
		if len(segs) > 0 {
			segs = segs[:len(segs)-1]
		}
	case 1:
		segs = append(segs, rapid.SampledFrom(wildSegs).Draw(t, "extra"))
	case 2:
		if len(segs) > 0 {
			i := rapid.IntRange(0, len(segs)-1).Draw(t, "at")
			segs[i] = rapid.SampledFrom(wildSegs).Draw(t, "repl")
		}
	case 3:
		if len(segs) > 0 {
			i := rapid.IntRange(0, len(segs)-1).Draw(t, "at")
			segs[i] = flipCase(segs[i])
		}
	}
	if len(segs) > maxSegs {
		segs = segs[:maxSegs]
	}
	return "/" + strings.Join(segs, "/")
}

// noisy rewrites a path into one that denotes the same normalised path.
func noisy(t *rapid.T, p string) string {
	segs := strings.Split(strings.Trim(p, "/"), "/")
	if p == "/" {
		segs = nil
	}
	var sb strings.Builder
	for i := 0; i < rapid.IntRange(0, 2).Draw(t, "up"); i++ {
		sb.WriteString("/..")
	}
	often := 5
	if len(segs) > 14 {
		often = rapid.SampledFrom([]int{5, 1}).Draw(t, "often")
	}
	// i segments are in front of the detour, which may reach the limit but not pass it
	detour := func(i int) {
		if i >= maxSegs || rapid.IntRange(0, often).Draw(t, "detour") != 0 {
			return
		}
		k := min(rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "deep"), maxSegs-i)
		for j := 0; j < k; j++ {
			sb.WriteString("/" + rapid.SampledFrom(wildSegs).Draw(t, "d"))
		}
		for j := 0; j < k; j++ {
			sb.WriteString(rapid.SampledFrom([]string{"/..", "/..", "/..", "//.."}).Draw(t, "back"))
		}
	}
	for i, s := range segs {
		detour(i)
		sb.WriteString("/")
		if rapid.IntRange(0, 5).Draw(t, "dbl") == 0 {
			sb.WriteString("/")
		}
		sb.WriteString(s)
	}
	detour(len(segs))
	if rapid.IntRange(0, 3).Draw(t, "tail") == 0 {
		sb.WriteString("/")
	}
	if sb.Len() == 0 {
		return "/"
	}
	return sb.String()
}

func matching(pats []Pat, method, p string, ci bool) []int {
	segs, ok := normalise(p)
	if !ok {
		return nil
	}
	var out []int
	for i, pt := range pats {
		if strings.EqualFold(pt.Method, method) && patMatches(pt.Segs, segs, ci) {
			out = append(out, i)
		}
	}
	return out
}

func patStrings(pats []Pat) []string {
	var out []string
	for _, p := range pats {
		out = append(out, p.Method+" "+p.String())
	}
	return out
}

func contains(xs []int, x int) bool {
	for _, v := range xs {
		if v == x {
			return true
		}
	}
	return false
}

func validUTF8(s string) bool { return utf8.ValidString(s) }
