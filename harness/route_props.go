package main

import (
	"fmt"
	"sort"
	"strings"

	"net/url"
	"unicode/utf8"

	"github.com/ixtendio/gofre/router/path"

	"pgregory.net/rapid"
)

type RouteReq struct {
	Method string `json:"m"`
	Path   Str    `json:"p"`
}

type RouteCase struct {
	CI   bool       `json:"ci"`
	Pats []Pat      `json:"pats"`
	Reqs []RouteReq `json:"reqs"`
	Perm []int      `json:"perm,omitempty"` // a second order of registration
	Huge int        `json:"huge,omitempty"` // the length of what hugeMark stands for
}

func genRouteCase(maxPats, maxLen int, methods []string) func(*rapid.T) RouteCase {
	return func(t *rapid.T) RouteCase {
		c := RouteCase{CI: rapid.IntRange(0, 3).Draw(t, "ci") == 3}
		maxLen, maxPats := maxLen, maxPats
		if rapid.IntRange(0, 19).Draw(t, "large") == 19 {
			maxPats *= 6
		}
		if rapid.IntRange(0, 9).Draw(t, "longpats") == 9 {
			maxLen = rapid.IntRange(8, maxSegs).Draw(t, "maxlen")
		}
		var base []string
		c.Pats, base = genPatsFor(t, c.CI, maxPats, maxLen, methods)
		if rapid.IntRange(0, 19).Draw(t, "longlit") == 19 {
			// two patterns that differ behind a long common start of a segment
			i := rapid.IntRange(0, len(c.Pats)-1).Draw(t, "longof")
			p, q := c.Pats[i], c.Pats[i]
			k := rapid.IntRange(0, len(p.Segs)).Draw(t, "longat")
			ends := rapid.SampledFrom([][2]string{{"", "b"}, {"x", "y"}, {"x", "xx"}, {"a", "a*"}, {"", "*"}, {"?", "?c"}}).Draw(t, "ends")
			with := func(segs []PSeg, end string) []PSeg {
				s := PSeg{Kind: kLit, Val: Str(hugeMark + end)}
				if strings.ContainsAny(end, "*?") {
					s.Kind = kGlob
				}
				return fixSegs(append(append(append([]PSeg(nil), segs[:k]...), s), segs[k:]...))
			}
			p.Segs, q.Segs = with(p.Segs, ends[0]), with(q.Segs, ends[1])
			if len(p.Segs) < maxSegs && len(q.Segs) < maxSegs {
				c.Pats[i] = p
				c.Pats = append(c.Pats, q)
				c.Huge = genHuge(t)
				if p.Segs[k].Kind == kGlob || q.Segs[k].Kind == kGlob {
					c.Huge = min(c.Huge, 1030)
				}
			}
		}
		for n := rapid.IntRange(1, 6).Draw(t, "nreq"); n > 0; n-- {
			p := genPathFrom(t, c.Pats, base)
			if rapid.IntRange(0, 4).Draw(t, "noise") == 0 {
				p = noisy(t, p)
			}
			if rapid.IntRange(0, 20).Draw(t, "huge") == 20 {
				// one segment grows, also beyond what 16 bits can count
				segs := strings.Split(p, "/")
				segs[rapid.IntRange(1, len(segs)-1).Draw(t, "hugeat")] += hugeMark
				if c.Huge == 0 {
					c.Huge = genHuge(t)
				}
				// (a .. that is no longer one must not let the path pass the limit on its way)
				if h := strings.Join(segs, "/"); !transientTooLong(h) {
					p = h
				}
			}
			c.Reqs = append(c.Reqs, RouteReq{rapid.SampledFrom(methods).Draw(t, "rm"), Str(p)})
		}
		return c
	}
}

// genHuge draws a length around those where a fixed size could end.
func genHuge(t *rapid.T) int {
	return rapid.SampledFrom([]int{12, 28, 60, 124, 252, 300, 1020, 4092, 33000, 65500, 65535, 65536, 65537, 66000, 131060, 131072}).Draw(t, "hugelen") + rapid.IntRange(0, 4).Draw(t, "hugeplus")
}

// hugeMark stands for a run of Huge characters in the patterns and requests of a case.
const hugeMark = "<huge>"

func (c RouteCase) expand() RouteCase {
	if c.Huge > 0 {
		run := strings.Repeat("b", c.Huge)
		c.Pats = append([]Pat(nil), c.Pats...)
		for i, p := range c.Pats {
			c.Pats[i].Segs = append([]PSeg(nil), p.Segs...)
			for k, s := range p.Segs {
				c.Pats[i].Segs[k].Val = Str(strings.ReplaceAll(string(s.Val), hugeMark, run))
			}
		}
		c.Reqs = append([]RouteReq(nil), c.Reqs...)
		for i := range c.Reqs {
			c.Reqs[i].Path = Str(strings.ReplaceAll(string(c.Reqs[i].Path), hugeMark, run))
		}
	}
	return c
}

func buildTable(c RouteCase, order []int) (*table, error) {
	tb := newTable(c.CI)
	for _, i := range order {
		if r := tb.add(i, c.Pats[i]); r != nil {
			return nil, fmt.Errorf("registration of %s %q, no duplicate of an earlier one, was refused: %v (registered in order: %q)", c.Pats[i].Method, c.Pats[i], r, patStrings(c.Pats))
		}
	}
	return tb, nil
}

func identity(n int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	return o
}

// classifyRoute fills coverage counters common to the routing properties.
func classifyRoute(c *Ctx, rc RouteCase, m []int) {
	c.ClassIf(len(m) == 0, "request without a matching pattern")
	c.ClassIf(len(m) == 1, "request with one matching pattern")
	c.ClassIf(len(m) > 1, "request with several matching patterns")
	c.ClassIf(rc.CI, "case-insensitive")
	c.ClassIf(len(rc.Pats) > 20, "table of more than 20 patterns")
	for _, i := range m {
		many := 0
		for _, s := range rc.Pats[i].Segs {
			c.Class("matching pattern with segment " + s.Kind)
			if s.Kind == kMany {
				many++
			}
		}
		c.ClassIf(many > 1, "matching pattern with several **")
	}
}

func checkSound(c *Ctx, rc RouteCase) error {
	rc = rc.expand()
	tb, err := buildTable(rc, identity(len(rc.Pats)))
	if err != nil {
		return err
	}
	for _, q := range rc.Reqs {
		m := matching(rc.Pats, q.Method, string(q.Path), rc.CI)
		classifyRoute(c, rc, m)
		if len(m) > 0 && len(rc.Pats) > 1 {
			c.NonTrivial()
		}
		res := tb.serve(q.Method, string(q.Path))
		where := fmt.Sprintf("%s %q (patterns %q, case-insensitive %v): %v", q.Method, q.Path, patStrings(rc.Pats), rc.CI, res)
		if len(m) == 0 {
			if len(res.Hits) != 0 || res.Status != 404 {
				return fmt.Errorf("no pattern matches, want 404 and no handler; %s", where)
			}
			continue
		}
		if len(res.Hits) != 1 || res.Status != 299 {
			return fmt.Errorf("patterns %v match, want exactly one handler to run; %s", m, where)
		}
		if !contains(m, res.Hits[0].Index) {
			return fmt.Errorf("the handler of pattern %q ran, which does not match (matching: %v); %s", rc.Pats[res.Hits[0].Index], m, where)
		}
	}
	return nil
}

func init() {
	methods := []string{"GET", "GET", "GET", "POST"}
	register("C01", "Route tables of 1-7 related patterns (every segment kind, 0-7 segments, several **) and 1-6 requests derived from them, through Router.ServeHTTP. Non-trivial: a table of at least two patterns and a request some pattern matches.",
		25000, 400000, genRouteCase(7, 5, methods), checkSound)

	register("C02", "As C01 with one method and denser tables. Non-trivial: a request that at least two patterns match and for which the ranking leaves a unique winner.",
		25000, 400000, genRouteCase(9, 5, []string{"GET"}), func(c *Ctx, rc RouteCase) error {
			rc = rc.expand()
			tb, err := buildTable(rc, identity(len(rc.Pats)))
			if err != nil {
				return err
			}
			for _, q := range rc.Reqs {
				m := matching(rc.Pats, q.Method, string(q.Path), rc.CI)
				classifyRoute(c, rc, m)
				if len(m) == 0 {
					continue
				}
				best := mostSpecific(rc.Pats, m, 0, rc.CI)
				if len(m) > 1 && len(best) == 1 {
					c.NonTrivial()
				}
				res := tb.serve(q.Method, string(q.Path))
				if len(res.Hits) != 1 {
					return fmt.Errorf("%s %q (patterns %q): patterns %v match, got %v", q.Method, q.Path, patStrings(rc.Pats), m, res)
				}
				if !contains(best, res.Hits[0].Index) {
					return fmt.Errorf("%s %q: handled by %q, but %q is more specific (patterns %q, case-insensitive %v)", q.Method, q.Path, rc.Pats[res.Hits[0].Index], rc.Pats[best[0]], patStrings(rc.Pats), rc.CI)
				}
			}
			return nil
		})

	register("C03", "As C01; the same table is registered in two orders, and once more without the patterns that match none of the requests. Non-trivial: the orders differ and some request is matched by at least two patterns.",
		15000, 250000, func(t *rapid.T) RouteCase {
			c := genRouteCase(8, 5, []string{"GET", "GET", "POST"})(t)
			c.Perm = rapid.Permutation(identity(len(c.Pats))).Draw(t, "perm")
			return c
		}, func(c *Ctx, rc RouteCase) error {
			rc = rc.expand()
			a, err := buildTable(rc, identity(len(rc.Pats)))
			if err != nil {
				return err
			}
			b, err := buildTable(rc, rc.Perm)
			if err != nil {
				return err
			}
			keep := map[int]bool{}
			multi := false
			for _, q := range rc.Reqs {
				m := matching(rc.Pats, q.Method, string(q.Path), rc.CI)
				classifyRoute(c, rc, m)
				multi = multi || len(m) > 1
				for _, i := range m {
					keep[i] = true
				}
			}
			if multi && !sort.IntsAreSorted(rc.Perm) {
				c.NonTrivial()
			}
			var kept []int
			for i := range rc.Pats {
				if keep[i] {
					kept = append(kept, i)
				}
			}
			c.ClassIf(len(kept) < len(rc.Pats), "some pattern matches no request")
			d, err := buildTable(rc, kept)
			if err != nil {
				return err
			}
			for _, q := range rc.Reqs {
				ra, rb, rd := a.serve(q.Method, string(q.Path)), b.serve(q.Method, string(q.Path)), d.serve(q.Method, string(q.Path))
				if fmt.Sprint(ra) != fmt.Sprint(rb) {
					return fmt.Errorf("%s %q: %v when registered in order %q, %v when registered in order %v", q.Method, q.Path, ra, patStrings(rc.Pats), rb, rc.Perm)
				}
				// Which of two equally ranked patterns wins may depend on the rest
				// of the table; everything else may not.
				if m := matching(rc.Pats, q.Method, string(q.Path), rc.CI); len(mostSpecific(rc.Pats, m, 0, rc.CI)) <= 1 && fmt.Sprint(ra) != fmt.Sprint(rd) {
					return fmt.Errorf("%s %q: %v, but %v when the patterns that match none of the requests are not registered (patterns %q, kept %v)", q.Method, q.Path, ra, rd, patStrings(rc.Pats), kept)
				}
			}
			return nil
		})

	register("C04", "As C01; inside the handler every variable of the selected pattern and several names that are not in it (close to those that are) are read. Non-trivial: the selected pattern has at least two variables, or one together with **.",
		25000, 400000, func(t *rapid.T) RouteCase {
			c := genRouteCase(5, 6, []string{"GET"})(t)
			return c
		}, func(c *Ctx, rc RouteCase) error {
			rc = rc.expand()
			tb, err := buildTable(rc, identity(len(rc.Pats)))
			if err != nil {
				return err
			}
			for _, q := range rc.Reqs {
				res := tb.serve(q.Method, string(q.Path))
				if len(res.Hits) != 1 {
					continue
				}
				p := rc.Pats[res.Hits[0].Index]
				segs, _ := normalise(string(q.Path))
				got := res.Hits[0].Vars
				nv, many := 0, false
				has := map[string]bool{}
				for _, s := range p.Segs {
					if s.Name != "" {
						nv++
						has[s.Name] = true
					}
					many = many || s.Kind == kMany
				}
				for name, v := range got {
					if !has[name] && v != "" {
						return fmt.Errorf("%s %q matched by %q: the variable %q, which is not in the pattern, has the value %q", q.Method, clip(string(q.Path), 300), p, name, clip(v, 300))
					}
				}
				if nv > 1 || (nv == 1 && many) {
					c.NonTrivial()
				}
				c.ClassIf(nv > 0 && many, "variables with **")
				c.ClassIf(nv == 0, "no variables")
				c.ClassIf(nv > 2, "three or more variables")
				c.ClassIf(len(q.Path) > 65536, "path longer than 64 KiB")
				c.ClassIf(len(p.Segs) > 9, "pattern of ten or more segments")
				if laid(p.Segs, segs, rc.CI, nil) && !laid(p.Segs, segs, rc.CI, got) {
					return fmt.Errorf("%s %q matched by %q: the variables %q do not lay the pattern over the path (patterns %q)", q.Method, clip(string(q.Path), 300), p, got, patStrings(rc.Pats))
				}
			}
			return nil
		})

	registerDup()
	registerFuzz()
	registerGlob()
	registerNorm()
	registerCI()
}

// ---- C05: registration ----

type DupCase struct {
	CI   bool  `json:"ci"`
	Pats []Pat `json:"pats"`
	// Reqs are served before and after each refused registration.
	Reqs []RouteReq `json:"reqs"`
}

func registerDup() {
	register("C05", "Sequences of 2-10 registrations over two methods in which later patterns are often re-spellings of earlier ones (other variable names, other letter case when the router ignores it, trailing slash) or invalid; the router must refuse exactly the model's duplicates and the invalid ones, and a refused registration must not change any answer. Non-trivial: at least one duplicate that is spelled differently.",
		20000, 300000, func(t *rapid.T) DupCase {
			c := DupCase{CI: rapid.Bool().Draw(t, "ci")}
			var prev [][]PSeg
			if rapid.IntRange(0, 19).Draw(t, "wide") == 19 {
				for _, segs := range genWide(t) {
					prev = append(prev, segs)
					c.Pats = append(c.Pats, Pat{Method: "GET", Segs: segs})
				}
			}
			maxLen := 4
			if rapid.IntRange(0, 9).Draw(t, "longpats") == 9 {
				maxLen = rapid.IntRange(8, maxSegs).Draw(t, "maxlen")
			}
			for n := rapid.IntRange(2, 10).Draw(t, "n"); n > 0; n-- {
				var segs []PSeg
				if len(prev) > 0 && rapid.IntRange(0, 2).Draw(t, "respell") == 0 {
					segs = append([]PSeg(nil), rapid.SampledFrom(prev).Draw(t, "base")...)
					for i := range segs {
						if segs[i].Name != "" && rapid.Bool().Draw(t, "ren") {
							segs[i].Name = fmt.Sprintf("r%d", i)
						}
						if (segs[i].Kind == kLit || segs[i].Kind == kGlob) && rapid.IntRange(0, 2).Draw(t, "flip") == 0 {
							segs[i].Val = Str(flipCase(string(segs[i].Val)))
						}
					}
				} else {
					segs = genRelated(t, prev, maxLen)
				}
				prev = append(prev, segs)
				c.Pats = append(c.Pats, Pat{Method: rapid.SampledFrom([]string{"GET", "GET", "GET", "POST", "get"}).Draw(t, "m"), Segs: segs, Slash: len(segs) > 0 && rapid.IntRange(0, 3).Draw(t, "slash") == 0})
			}
			for n := rapid.IntRange(1, 4).Draw(t, "nreq"); n > 0; n-- {
				c.Reqs = append(c.Reqs, RouteReq{rapid.SampledFrom([]string{"GET", "POST"}).Draw(t, "rm"), Str(genPath(t, c.Pats))})
			}
			return c
		}, func(c *Ctx, dc DupCase) error {
			tb := newTable(dc.CI)
			have := map[string]string{}
			snapshot := func() string {
				var sb strings.Builder
				for _, q := range dc.Reqs {
					fmt.Fprintln(&sb, tb.serve(q.Method, string(q.Path)))
				}
				return sb.String()
			}
			for i, p := range dc.Pats {
				k := strings.ToUpper(p.Method) + shapeKey(p.Segs, dc.CI)
				before := snapshot()
				refused := tb.add(i, p)
				first, dup := have[k]
				switch {
				case dup && refused == nil:
					return fmt.Errorf("%s %q was accepted although %q is registered (case-insensitive %v; registered in order %q)", p.Method, p, first, dc.CI, patStrings(dc.Pats[:i]))
				case !dup && refused != nil:
					return fmt.Errorf("%s %q was refused although it duplicates nothing: %v (case-insensitive %v; registered in order %q)", p.Method, p, refused, dc.CI, patStrings(dc.Pats[:i]))
				}
				if dup {
					c.Class("duplicate refused")
					if first != p.String() {
						c.NonTrivial()
					}
					if after := snapshot(); after != before {
						return fmt.Errorf("the refused registration of %s %q changed the answers to %v from\n%sto\n%s", p.Method, p, dc.Reqs, before, after)
					}
				} else {
					have[k] = p.String()
					c.Class("accepted")
				}
			}
			return nil
		})
}

// ---- C06: no input crashes or hangs the parser, the table or the matcher ----

type FuzzCase struct {
	CI   bool  `json:"ci"`
	Pats []Str `json:"pats"`
	URLs []Str `json:"urls"`
	Huge int   `json:"huge,omitempty"` // the length of what hugeMark stands for
}

func registerFuzz() {
	piece := rapid.OneOf(
		rapid.SampledFrom([]string{"/", "/", "/", "/", "*", "**", "?", "{", "}", ":", "..", ".", "a", "b", "ab", "{x}", "{y:^a$}", "{z:[0-9]+}", "/**", "/*", "/**/", "a*", "*a", "*a*b*", "a?b", "é", "\xff", "\x00", "%2f", "{:", ":}", "(", "[", "+", "(?i)", "/a/b/c/d/e/f/g", "/**/a/**/b", "/**/{q}/**/a"}),
		rapid.StringOfN(rapid.RuneFrom([]rune("ab/*?{}:.")), 1, 6, -1),
	)
	str := func(t *rapid.T, lbl string, max int) string {
		s := strings.Join(rapid.SliceOfN(piece, 0, max).Draw(t, lbl), "")
		if rapid.IntRange(0, 9).Draw(t, "noslash") > 0 && !strings.HasPrefix(s, "/") {
			s = "/" + s
		}
		return s
	}
	register("C06", "Arbitrary pattern strings assembled from syntax fragments, brackets, regexps, NULs and invalid UTF-8 (up to ~40 segments), added to one table and asked about arbitrary URL paths (up to ~200 segments or 200 kB). Parsing must accept or return an error; accepted patterns can be added (or refused) and asked; nothing may panic or fail to return, and an accepted pattern matches only through ParseURLPath's segments. Non-trivial: at least one pattern with a wildcard is accepted.",
		40000, 800000, func(t *rapid.T) FuzzCase {
			c := FuzzCase{CI: rapid.Bool().Draw(t, "ci")}
			for n := rapid.IntRange(1, 5).Draw(t, "np"); n > 0; n-- {
				if rapid.IntRange(0, 3).Draw(t, "valid") == 3 {
					// well-formed, up to 30 segments, mostly ** and few literals
					var sb strings.Builder
					many := false
					for k := rapid.IntRange(0, 30).Draw(t, "vlen"); k >= 0; k-- {
						s := rapid.SampledFrom([]string{"**", "**", "**", "a", "a", "*", "{v}", "a*", "{w:^a}", "b"}).Draw(t, "vseg")
						if s == "**" && many {
							s = "a"
						}
						many = s == "**"
						sb.WriteString("/" + s)
					}
					c.Pats = append(c.Pats, Str(sb.String()))
					continue
				}
				max := 8
				if rapid.IntRange(0, 5).Draw(t, "long") == 0 {
					max = 60
				}
				c.Pats = append(c.Pats, Str(str(t, "pat", max)))
			}
			for n := rapid.IntRange(1, 4).Draw(t, "nu"); n > 0; n-- {
				s := ""
				switch rapid.IntRange(0, 7).Draw(t, "ukind") {
				case 6: // what a pattern matches, or nearly
					p := string(rapid.SampledFrom(c.Pats).Draw(t, "for"))
					s = strings.NewReplacer("**", strings.Repeat("a/", rapid.IntRange(0, 4).Draw(t, "stars"))+"a", "*", "a", "{v}", "a", "{w:^a}", "a", "{x}", "b").Replace(p)
					if rapid.Bool().Draw(t, "spoil") {
						s += rapid.SampledFrom([]string{"/b", "/a", "c", "/..", "/../.."}).Draw(t, "tail")
					}
				case 7:
					s = strings.Repeat(rapid.SampledFrom([]string{"/a", "/a", "/b/a", "/b"}).Draw(t, "unit"), rapid.IntRange(1, 21).Draw(t, "units")) + rapid.SampledFrom([]string{"", "/b", "/c"}).Draw(t, "tail")
				case 0:
					s = "/" + rapid.String().Draw(t, "any")
				case 1:
					s = string(rapid.SampledFrom(c.Pats).Draw(t, "same"))
				case 2:
					s = strings.Repeat(str(t, "rep", 3), rapid.IntRange(1, 40).Draw(t, "times"))
				case 3:
					if rapid.IntRange(0, 12).Draw(t, "huge") == 12 {
						c.Huge = rapid.SampledFrom([]int{65536, 65530, 131072, 196608, 33000}).Draw(t, "hugelen") + rapid.IntRange(0, 9).Draw(t, "hugeplus")
						s = rapid.SampledFrom([]string{"/a/", "/", "/a", "/b/a/", "/" + hugeMark + "/"}).Draw(t, "pre") + hugeMark + str(t, "suffix", 4)
					} else {
						s = str(t, "url", 10)
					}
				default:
					s = str(t, "url", 10)
				}
				c.URLs = append(c.URLs, Str(s))
			}
			return c
		}, func(c *Ctx, fc FuzzCase) error {
			m := path.NewMatcher(fc.CI)
			accepted := map[string]bool{}
			for _, ps := range fc.Pats {
				p, err := path.ParsePattern(string(ps), fc.CI)
				if (p == nil) == (err == nil) {
					return fmt.Errorf("ParsePattern(%q) = %v, %v: neither a pattern nor an error", ps, p, err)
				}
				if err != nil {
					c.Class("pattern rejected")
					continue
				}
				c.Class("pattern accepted")
				if strings.ContainsAny(string(ps), "*?{") {
					c.NonTrivial()
				}
				c.ClassIf(strings.Count(string(ps), "/**") > 1, "several **")
				c.ClassIf(strings.Count(string(ps), "/**") > 5, "more than five **")
				p.Attachment = string(ps)
				if m.AddPattern(p) == nil {
					accepted[string(ps)] = true
				} else {
					c.Class("pattern refused as duplicate")
				}
			}
			for _, u := range fc.URLs {
				u = Str(strings.ReplaceAll(string(u), hugeMark, strings.Repeat("b", fc.Huge)))
				mc := path.MatchingContext{R: newReq("GET", string(u)), PathSegments: make([]path.UrlSegment, path.MaxPathSegments)}
				path.ParseURLPath(&url.URL{Path: string(u)}, &mc)
				p := m.Match(string(u), &mc)
				c.ClassIf(len(u) > 60000, "huge URL")
				if p == nil {
					continue
				}
				c.Class("matched")
				if !accepted[p.RawValue] {
					return fmt.Errorf("Match(%q) returned pattern %q, which was never added", u, p.RawValue)
				}
				if segs, ok := normalise(string(u)); !ok && !transientTooLong(string(u)) && u[0] == '/' {
					return fmt.Errorf("URL path with %d segments matched %q", len(segs), p.RawValue)
				}
				cl := mc.Clone()
				for _, name := range []string{"x", "y", "z", "v", "w", "q", ""} {
					v := mc.PathVar(name)
					if cl.PathVar(name) != v {
						return fmt.Errorf("Match(%q): a clone of the matching context has another value for %q", clip(string(u), 300), name)
					}
					if v != "" && !strings.Contains("/"+string(u)+"/", "/"+v+"/") {
						return fmt.Errorf("Match(%q) with pattern %q: variable %q has the value %q, which is no segment of the path", clip(string(u), 300), p.RawValue, name, clip(v, 300))
					}
				}
			}
			return nil
		})
}

// ---- C07: globs ----

type GlobCase struct {
	CI   bool  `json:"ci"`
	Glob Str   `json:"glob"`
	Segs []Str `json:"segs"`
}

func registerGlob() {
	globRunes := []rune("aabbcA***??éⱥk日")
	textRunes := []rune("aabbcABCé1ÉⱥȺkK\u212a*?\ufffd日😀")
	register("C07", "One pattern /x/<glob> with a glob of 1-14 characters over a small alphabet (no two adjacent *), asked about 1-8 segments that are derived from the glob or random, against a dynamic-programming reference. Non-trivial: the glob has both a wildcard and a literal and at least one segment matches.",
		40000, 800000, func(t *rapid.T) GlobCase {
			c := GlobCase{CI: rapid.IntRange(0, 2).Draw(t, "ci") == 0}
			var sb strings.Builder
			last := 'x'
			for n := several(t, 1, 14, 90, "n"); n > 0; n-- {
				r := rapid.SampledFrom(globRunes).Draw(t, "g")
				if r == '*' && last == '*' {
					r = 'a'
				}
				sb.WriteRune(r)
				last = r
			}
			g := sb.String()
			if !strings.ContainsAny(g, "*?") {
				g += "*"
			}
			if g == "*" {
				g = "*a"
			}
			c.Glob = Str(g)
			for n := rapid.IntRange(1, 8).Draw(t, "nseg"); n > 0; n-- {
				s := ""
				if rapid.IntRange(0, 3).Draw(t, "kind") == 0 {
					s = rapid.StringOfN(rapid.RuneFrom(textRunes), 1, several(t, 10, 10, 300, "longest"), -1).Draw(t, "text")
				} else {
					var x strings.Builder
					for _, r := range g {
						switch r {
						case '*':
							x.WriteString(rapid.StringOfN(rapid.RuneFrom(textRunes), 0, several(t, 4, 4, 300, "longest"), -1).Draw(t, "star"))
						case '?':
							x.WriteRune(rapid.RuneFrom(textRunes).Draw(t, "q"))
						default:
							x.WriteRune(r)
						}
					}
					s = x.String()
					switch rapid.IntRange(0, 7).Draw(t, "mut") {
					case 6, 7: // a character is missing, or all behind it
						if rs := []rune(s); len(rs) > 1 {
							i := rapid.IntRange(0, len(rs)-1).Draw(t, "missing")
							if rapid.IntRange(0, 2).Draw(t, "cut") == 2 {
								s = string(rs[:i])
							} else {
								s = string(rs[:i]) + string(rs[i+1:])
							}
						}
					case 0:
						s += "b"
					case 1:
						s = s[:len(s)-1]
						if !validUTF8(s) {
							s = "a"
						}
					case 2:
						s = flipCase(s)
					}
				}
				switch rapid.IntRange(0, 19).Draw(t, "grow") {
				case 18: // a long run of one of its characters
					if i := strings.IndexAny(s, "abcABCé1"); i >= 0 {
						n := rapid.SampledFrom([]int{100, 253, 254, 255, 256, 511, 1000, 2000}).Draw(t, "run")
						r, _ := utf8.DecodeRuneInString(s[i:])
						s = s[:i] + strings.Repeat(string(r), n) + s[i:]
					}
				case 19: // bytes that are no text
					s = strings.ReplaceAll(s, "\ufffd", "\xff")
				}
				if s == "" || s == ".." {
					s = "b"
				}
				c.Segs = append(c.Segs, Str(s))
			}
			return c
		}, func(c *Ctx, gc GlobCase) error {
			tb := newTable(gc.CI)
			p := Pat{Method: "GET", Segs: []PSeg{{Kind: kLit, Val: "x"}, {Kind: kGlob, Val: gc.Glob}}}
			if r := tb.add(0, p); r != nil {
				return fmt.Errorf("pattern %q refused: %v", p, r)
			}
			any := false
			for _, s := range gc.Segs {
				want := globMatch(string(s), string(gc.Glob), gc.CI)
				res := tb.serve("GET", "/x/"+string(s))
				if got := len(res.Hits) == 1; got != want {
					return fmt.Errorf("glob %q against segment %q (case-insensitive %v): matched=%v, want %v", gc.Glob, s, gc.CI, got, want)
				}
				any = any || want
				c.ClassIf(want, "segment matches")
				c.ClassIf(!want, "segment does not match")
				c.ClassIf(strings.Count(string(gc.Glob), "*") > 1 && want, "match with several *")
			}
			if any && strings.ContainsAny(string(gc.Glob), "abcAé") {
				c.NonTrivial()
			}
			return nil
		})
}

// ---- C08: normalisation of request paths ----

type NormCase struct {
	CI    bool  `json:"ci"`
	Pats  []Pat `json:"pats"`
	Plain Str   `json:"plain"`
	Noisy []Str `json:"noisy"`
	Enc   []int `json:"enc"` // how the spellings are percent-encoded
	Long  int   `json:"long"`
	Seg   Str   `json:"seg"`
}

func hasShape(pats []Pat, shape string) bool {
	for _, p := range pats {
		if strings.TrimSuffix(p.String(), "/") == shape {
			return true
		}
	}
	return false
}

func registerNorm() {
	register("C08", "A route table, a request path, and 1-4 spellings of it with repeated and trailing slashes, leading .. and segment/.. detours, half of them percent-encoded (slashes included): all must be answered as the plain path. Plus a path of 17-60 (rarely 300+) segments, which only tables with a matching pattern of at most 19 segments may answer: 20 or more segments are 404. Non-trivial: a spelling contains .. and the plain path is answered by a handler.",
		15000, 250000, func(t *rapid.T) NormCase {
			c := NormCase{CI: rapid.IntRange(0, 4).Draw(t, "ci") == 0}
			most := 5
			if rapid.IntRange(0, 2).Draw(t, "longpats") == 0 {
				most = rapid.IntRange(14, maxSegs).Draw(t, "most")
			}
			c.Pats = genPats(t, c.CI, 6, most, []string{"GET"})
			if rapid.Bool().Draw(t, "root") {
				has := false
				for _, p := range c.Pats {
					has = has || len(p.Segs) == 0
				}
				if !has {
					c.Pats = append(c.Pats, Pat{Method: "GET"})
				}
			}
			pl := genPath(t, c.Pats)
			if rapid.IntRange(0, 5).Draw(t, "near") == 0 {
				// close to the limit, answered by **
				if !hasShape(c.Pats, "/**") {
					c.Pats = append(c.Pats, Pat{Method: "GET", Segs: []PSeg{{Kind: kMany}}})
				}
				pl = "/" + strings.Join(rapid.SliceOfN(rapid.SampledFrom(wildSegs), 16, maxSegs).Draw(t, "nearsegs"), "/")
			}
			c.Plain = Str(pl)
			for n := rapid.IntRange(1, 4).Draw(t, "n"); n > 0; n-- {
				c.Noisy = append(c.Noisy, Str(noisy(t, pl)))
				c.Enc = append(c.Enc, rapid.SampledFrom([]int{0, 0, 1, 2, 3, 7}).Draw(t, "enc"))
			}
			c.Long = rapid.IntRange(17, 24).Draw(t, "long")
			switch rapid.IntRange(0, 9).Draw(t, "longkind") {
			case 0:
				c.Long = rapid.IntRange(25, 60).Draw(t, "longer")
			case 1:
				c.Long = rapid.SampledFrom([]int{255, 256, 257, 275, 300, 512, 1000}).Draw(t, "longest")
			}
			c.Seg = Str(rapid.SampledFrom(wildSegs).Draw(t, "seg"))
			return c
		}, func(c *Ctx, nc NormCase) error {
			rc := RouteCase{CI: nc.CI, Pats: nc.Pats}
			tb, err := buildTable(rc, identity(len(rc.Pats)))
			if err != nil {
				return err
			}
			want := tb.serve("GET", string(nc.Plain))
			for i, n := range nc.Noisy {
				enc := 0
				if i < len(nc.Enc) {
					enc = nc.Enc[i]
				}
				got := tb.serveEncoded("GET", string(n), enc)
				c.ClassIf(enc > 0, "percent-encoded")
				if strings.Contains(string(n), "..") && len(want.Hits) == 1 {
					c.NonTrivial()
					c.Class("with ..")
				}
				c.ClassIf(strings.Contains(string(n), "//"), "repeated slash")
				if fmt.Sprint(got) != fmt.Sprint(want) {
					return fmt.Errorf("%q (percent-encoded as %q) denotes the same path as %q but is answered with %v instead of %v (patterns %q)", n, encodePath(string(n), enc), nc.Plain, got, want, patStrings(nc.Pats))
				}
			}
			long := strings.Repeat("/"+string(nc.Seg), nc.Long)
			res := tb.serve("GET", long)
			if nc.Long > maxSegs {
				c.Class("more than 19 segments")
				if len(res.Hits) != 0 || res.Status != 404 {
					return fmt.Errorf("a path of %d segments %q was answered with %v, want 404 (patterns %q)", nc.Long, nc.Seg, res, patStrings(nc.Pats))
				}
			} else if m := matching(nc.Pats, "GET", long, nc.CI); (len(m) > 0) != (len(res.Hits) == 1) {
				return fmt.Errorf("a path of %d segments %q was answered with %v; matching patterns: %v of %q", nc.Long, nc.Seg, res, m, patStrings(nc.Pats))
			}
			return nil
		})
}

// ---- C09: letter case ----

func registerCI() {
	register("C09", "The same route table in a case-sensitive and a case-insensitive router; each request is also sent with the letter case of every segment flipped. The insensitive router must answer both alike and answer whatever the sensitive one answers; the sensitive one must follow the model exactly. Non-trivial: the flipped path differs and the insensitive router answers it while the sensitive one does not.",
		15000, 250000, func(t *rapid.T) RouteCase {
			c := RouteCase{CI: true}
			var base []string
			c.Pats, base = genPatsFor(t, true, 6, 5, []string{"GET"})
			for n := rapid.IntRange(1, 5).Draw(t, "nreq"); n > 0; n-- {
				c.Reqs = append(c.Reqs, RouteReq{"GET", Str(genPathFrom(t, c.Pats, base))})
			}
			return c
		}, func(c *Ctx, rc RouteCase) error {
			ins, err := buildTable(rc, identity(len(rc.Pats)))
			if err != nil {
				return err
			}
			rc.CI = false
			sen, err := buildTable(rc, identity(len(rc.Pats)))
			if err != nil {
				return err
			}
			for _, q := range rc.Reqs {
				p := string(q.Path)
				f := flipCase(p)
				i1, i2 := ins.serve("GET", p), ins.serve("GET", f)
				s1, s2 := sen.serve("GET", p), sen.serve("GET", f)
				w := fmt.Sprintf("(patterns %q)", patStrings(rc.Pats))
				if i1.Status != i2.Status || len(i1.Hits) != len(i2.Hits) || (len(i1.Hits) == 1 && i1.Hits[0].Index != i2.Hits[0].Index) {
					return fmt.Errorf("case-insensitive: %q is answered with %v but %q with %v %s", p, i1, f, i2, w)
				}
				if len(i1.Hits) == 1 {
					for k, v := range i1.Hits[0].Vars {
						if !strings.EqualFold(v, i2.Hits[0].Vars[k]) {
							return fmt.Errorf("case-insensitive: variables %v for %q but %v for %q %s", i1.Hits[0].Vars, p, i2.Hits[0].Vars, f, w)
						}
					}
				}
				for _, x := range []struct {
					p string
					r routeResult
				}{{p, s1}, {f, s2}} {
					if len(x.r.Hits) == 1 && len(i1.Hits) == 0 {
						return fmt.Errorf("%q is answered by the case-sensitive router (%v) but not by the case-insensitive one %s", x.p, x.r, w)
					}
					if m := matching(rc.Pats, "GET", x.p, false); (len(m) > 0) != (len(x.r.Hits) == 1) || (len(m) > 0 && !contains(m, x.r.Hits[0].Index)) {
						return fmt.Errorf("case-sensitive: %q answered with %v; matching patterns %v %s", x.p, x.r, m, w)
					}
				}
				if p != f && len(i1.Hits) == 1 && len(s2.Hits) == 0 {
					c.NonTrivial()
				}
				c.ClassIf(len(i1.Hits) == 1, "answered")
				c.ClassIf(p != f && len(s1.Hits) == 1 && len(s2.Hits) == 1, "flipped path answered by the sensitive router too")
			}
			return nil
		})
}
