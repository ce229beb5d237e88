package main

import (
	"context"
	stderrors "errors"
	"fmt"
	"net/http/httptest"
	"regexp"
	"strconv"
	"strings"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/auth"
	"github.com/ixtendio/gofre/errors"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"github.com/ixtendio/gofre/router/path"
	"pgregory.net/rapid"
)

type permSpec struct {
	Scope  Str    `json:"s"`
	Access uint32 `json:"a"`
}

func (p permSpec) real() auth.Permission {
	return auth.Permission{Scope: string(p.Scope), Access: auth.Access(p.Access)}
}

func reals(ps []permSpec) []auth.Permission {
	var out []auth.Permission
	for _, p := range ps {
		out = append(out, p.real())
	}
	return out
}

// scopeSeparator sets the separator of the levels. The cases and the model always have /, so it is exchanged
// with the separator in the scopes; the other result sets the separator back.
func scopeSeparator(sep string) (func(string) string, func()) {
	if sep == "" {
		return func(s string) string { return s }, func() {}
	}
	auth.ScopeSeparator = []rune(sep)[0]
	return strings.NewReplacer("/", sep, sep, "/").Replace, func() { auth.ScopeSeparator = '/' }
}

func genSeparator(t *rapid.T) string {
	if rapid.IntRange(0, 3).Draw(t, "ownsep") < 3 {
		return ""
	}
	return rapid.SampledFrom([]string{".", "|", "→", "a", "-"}).Draw(t, "separator")
}

// impliesModel is the documented meaning of Permission.Implies.
func impliesModel(p, q permSpec) bool {
	if p.Access&q.Access != q.Access {
		return false
	}
	a, b := strings.Split(string(p.Scope), "/"), strings.Split(string(q.Scope), "/")
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != "*" && a[i] != b[i] {
			return false
		}
	}
	return len(a) == len(b) || a[len(a)-1] == "*"
}

type roleSpec struct {
	Name  string     `json:"n"`
	Allow []permSpec `json:"allow"`
	Deny  []permSpec `json:"deny"`
}

func (r roleSpec) real(perm []int) auth.Role {
	return auth.Role{Name: r.Name, AllowedPermissions: shuffled(reals(r.Allow), perm), DeniedPermissions: shuffled(reals(r.Deny), perm)}
}

func (r roleSpec) has(q permSpec) bool {
	for _, d := range r.Deny {
		if impliesModel(d, q) {
			return false
		}
	}
	for _, a := range r.Allow {
		if impliesModel(a, q) {
			return true
		}
	}
	return false
}

type userSpec struct {
	Nil    bool         `json:"nil,omitempty"` // no principal
	ID     string       `json:"id"`
	Groups [][]roleSpec `json:"groups"`
	Same   bool         `json:"same,omitempty"` // all groups have one name
}

func (u userSpec) real(perm []int) auth.User {
	var gs []auth.Group
	for i, g := range u.Groups {
		var rs []auth.Role
		for _, r := range g {
			rs = append(rs, r.real(perm))
		}
		name := fmt.Sprint("g", i)
		if u.Same {
			name = "group"
		}
		gs = append(gs, auth.Group{Name: name, Roles: shuffled(rs, perm)})
	}
	return auth.User{Id: u.ID, Name: "name of " + u.ID, Groups: shuffled(gs, perm)}
}

func (u userSpec) has(q permSpec) bool {
	for _, g := range u.Groups {
		for _, r := range g {
			if r.has(q) {
				return true
			}
		}
	}
	return false
}

// shuffled orders xs by the (cyclically used) keys.
func shuffled[T any](xs []T, keys []int) []T {
	out := append([]T(nil), xs...)
	for i := range out {
		if len(keys) > 0 {
			j := keys[i%len(keys)] % (i + 1)
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

func genScope(t *rapid.T, wild bool) Str {
	pool := []string{"a", "b", "c", "aa", "A", "é", "", "a:1", "12"}
	if wild {
		pool = []string{"a", "b", "*", "*", "c", "aa", "A", "é", "", "a*", "**", "a:1"}
	}
	n := rapid.IntRange(1, 3).Draw(t, "levels")
	var parts []string
	for i := 0; i < n; i++ {
		if rapid.IntRange(0, 9).Draw(t, "odd") < 8 {
			parts = append(parts, rapid.SampledFrom(pool[:4]).Draw(t, "level"))
		} else {
			parts = append(parts, rapid.SampledFrom(pool).Draw(t, "level"))
		}
	}
	return Str(strings.Join(parts, "/"))
}

func genAccess(t *rapid.T) uint32 {
	switch rapid.IntRange(0, 7).Draw(t, "acc") {
	case 0, 1:
		return 1 << rapid.IntRange(0, 8).Draw(t, "bit")
	case 2, 3:
		return uint32(rapid.IntRange(0, 7).Draw(t, "low"))
	case 4:
		return uint32(auth.AccessAll())
	case 5:
		return rapid.Uint32().Draw(t, "any")
	}
	return uint32(rapid.IntRange(0, 511).Draw(t, "mask"))
}

func genPerm(t *rapid.T, wild bool) permSpec { return permSpec{genScope(t, wild), genAccess(t)} }

func genRequested(t *rapid.T, from []permSpec) permSpec {
	if len(from) == 0 || rapid.IntRange(0, 4).Draw(t, "fresh") == 4 {
		return genPerm(t, false)
	}
	p := rapid.SampledFrom(from).Draw(t, "like")
	parts := strings.Split(string(p.Scope), "/")
	for i := range parts {
		if strings.Contains(parts[i], "*") || rapid.IntRange(0, 7).Draw(t, "mut") == 7 {
			parts[i] = rapid.SampledFrom([]string{"a", "b", "aa", "", "c"}).Draw(t, "lv")
		}
	}
	switch rapid.IntRange(0, 5).Draw(t, "len") {
	case 4:
		if len(parts) < 3 {
			parts = append(parts, rapid.SampledFrom([]string{"a", "b", parts[len(parts)-1]}).Draw(t, "lv"))
		}
	case 5:
		if len(parts) > 1 {
			parts = parts[:len(parts)-1]
		}
	}
	acc := p.Access
	switch rapid.IntRange(0, 5).Draw(t, "am") {
	case 3:
		acc &= genAccess(t)
	case 4:
		acc |= 1 << rapid.IntRange(0, 9).Draw(t, "bit")
	case 5:
		acc = genAccess(t)
	}
	return permSpec{Str(strings.Join(parts, "/")), acc}
}

func genRole(t *rapid.T) roleSpec {
	r := roleSpec{Name: rapid.SampledFrom([]string{"admin", "dev", "ops", "Admin", ""}).Draw(t, "role")}
	for n := several(t, 0, 3, 20, "nallow"); n > 0; n-- {
		r.Allow = append(r.Allow, genPerm(t, true))
	}
	for n := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "ndeny"); n > 0; n-- {
		if len(r.Allow) > 0 && rapid.Bool().Draw(t, "denylike") {
			p := rapid.SampledFrom(r.Allow).Draw(t, "dl")
			r.Deny = append(r.Deny, permSpec{p.Scope, genAccess(t)})
		} else {
			r.Deny = append(r.Deny, genPerm(t, true))
		}
	}
	return r
}

func genUser(t *rapid.T, id string) userSpec {
	u := userSpec{ID: id, Same: rapid.IntRange(0, 3).Draw(t, "samename") == 3}
	for n := several(t, 0, 3, 10, "ngroups"); n > 0; n-- {
		var g []roleSpec
		for k := several(t, 0, 3, 12, "nroles"); k > 0; k-- {
			g = append(g, genRole(t))
		}
		u.Groups = append(u.Groups, g)
	}
	return u
}

func (u userSpec) perms() (out []permSpec) {
	for _, g := range u.Groups {
		for _, r := range g {
			out = append(out, r.Allow...)
			out = append(out, r.Deny...)
		}
	}
	return
}

type impliesCase struct {
	Sep string     `json:"sep,omitempty"` // the scope separator, if it is not /
	P   permSpec   `json:"p"`
	Q   []permSpec `json:"q"`
}

type userCase struct {
	U     userSpec   `json:"u"`
	Order []int      `json:"order"`
	Q     []permSpec `json:"q"`
	Names []string   `json:"names"`
}

type parseCase struct {
	Sep  string   `json:"sep,omitempty"` // the scope separator, if it is not /
	Perm permSpec `json:"perm"`
	Text Str      `json:"text"`
}

var decimal = regexp.MustCompile(`^[0-9]+$`)

type authzReq struct {
	U        userSpec `json:"u"`
	Pointer  bool     `json:"ptr"`
	Supplier int      `json:"sup"` // for Authorize: which permission list; -1 fails, -2 fails with a list
	HErr     bool     `json:"herr"`
}

type authzCase struct {
	Mode  string       `json:"mode"` // all, any, supAll, supAny
	Perms []permSpec   `json:"perms"`
	Lists [][]permSpec `json:"lists"`
	Reqs  []authzReq   `json:"reqs"`
}

type supplierReq struct {
	Ctx   string   `json:"ctx"` // principal already in the request context; "" none
	Outer int      `json:"outer"`
	Inner int      `json:"inner"` // 0 none, 1 a principal, 2 error, 3 error together with a principal
	IDs   []int    `json:"ids"`   // identities of the principals in the context, outer and inner: 0 of its own, 1 empty, 2 one for all
	Types []int    `json:"types"` // and their types: 0 auth.User, 1 *auth.User, 2 one of the application
	U     userSpec `json:"u"`
}

// appPrincipal is a principal of the application.
type appPrincipal struct {
	auth.User
	mark string
}

func (q supplierReq) principal(i int, mark string) auth.SecurityPrincipal {
	u := q.U.real(nil)
	u.Id = []string{mark, "", "same"}[at(q.IDs, i)]
	u.Attachment = mark
	switch at(q.Types, i) {
	case 1:
		return &u
	case 2:
		u.Attachment = nil
		return appPrincipal{u, mark}
	}
	return u
}

func at(xs []int, i int) int {
	if i < len(xs) {
		return xs[i]
	}
	return 0
}

// markOf tells which principal it is, whatever its identity.
func markOf(p auth.SecurityPrincipal) string {
	switch p := p.(type) {
	case auth.User:
		return fmt.Sprint(p.Attachment)
	case *auth.User:
		return fmt.Sprint(p.Attachment)
	case appPrincipal:
		return p.mark
	case nil:
		return "nobody"
	}
	return fmt.Sprintf("a %T", p)
}

type supplierCase struct {
	Two  bool          `json:"two"`
	Auth bool          `json:"auth"`
	Perm permSpec      `json:"perm"`
	Reqs []supplierReq `json:"reqs"`
}

// namedAccesses in the order of their bits.
var namedAccesses = []auth.Access{auth.AccessRead, auth.AccessCreate, auth.AccessUpdate, auth.AccessDelete, auth.AccessAdd, auth.AccessRemove, auth.AccessDisable, auth.AccessEnable, auth.AccessApprove}

func init() {
	register("C14", "A permission with a scope of 1-3 levels (wildcards, empty and odd levels, any access mask) against 1-6 wildcard-free permissions, most of them derived from it. Non-trivial: at least one of the requested permissions is implied or differs in one respect only (scope or access).",
		20000, 400000, func(t *rapid.T) impliesCase {
			c := impliesCase{P: genPerm(t, true), Sep: genSeparator(t)}
			for n := several(t, 1, 6, 40, "n"); n > 0; n-- {
				c.Q = append(c.Q, genRequested(t, []permSpec{c.P}))
			}
			return c
		}, func(c *Ctx, ic impliesCase) error {
			ex, done := scopeSeparator(ic.Sep)
			defer done()
			real := func(p permSpec) auth.Permission {
				p.Scope = Str(ex(string(p.Scope)))
				return p.real()
			}
			c.ClassIf(ic.Sep != "", "other separator")
			for _, q := range ic.Q {
				want := impliesModel(ic.P, q)
				sameScope := impliesModel(permSpec{ic.P.Scope, q.Access}, q)
				if want || sameScope || ic.P.Access&q.Access == q.Access {
					c.NonTrivial()
				}
				c.ClassIf(want, "implied")
				c.ClassIf(!want && sameScope, "refused by access")
				c.ClassIf(!want && !sameScope, "refused by scope")
				if got := real(ic.P).Implies(real(q)); got != want {
					return fmt.Errorf("permission %s implies %s: got %v, want %v (separator %q)", real(ic.P), real(q), got, want, auth.ScopeSeparator)
				}
			}
			if !auth.AllPermissions().Implies(real(permSpec{ic.Q[0].Scope, ic.Q[0].Access & 511})) {
				return fmt.Errorf("AllPermissions does not imply %s", ic.Q[0].real())
			}
			return nil
		})

	register("C15", "Users with 0-3 groups of 0-3 roles of 0-3 allowed and 0-2 denied permissions (denials made from the allowed ones), in two orders, and 1-6 requested permissions and role names. Non-trivial: some role allows a requested permission.",
		12000, 200000, func(t *rapid.T) userCase {
			c := userCase{U: genUser(t, "u")}
			c.Order = rapid.SliceOfN(rapid.IntRange(0, 9), 1, 5).Draw(t, "order")
			for n := several(t, 1, 6, 40, "n"); n > 0; n-- {
				c.Q = append(c.Q, genRequested(t, c.U.perms()))
			}
			c.Names = []string{rapid.SampledFrom([]string{"admin", "dev", "ops", "Admin", "", "nobody"}).Draw(t, "hasrole")}
			return c
		}, func(c *Ctx, uc userCase) error {
			for _, order := range [][]int{nil, uc.Order} {
				u := uc.U.real(order)
				for _, q := range uc.Q {
					want := uc.U.has(q)
					denied := false
					for gi, g := range uc.U.Groups {
						gw := false
						for _, r := range g {
							rw := r.has(q)
							gw = gw || rw
							if !rw {
								for _, a := range r.Allow {
									denied = denied || impliesModel(a, q)
								}
							}
							if got := r.real(order).HasPermission(q.real()); got != rw {
								return fmt.Errorf("role %+v has %s: got %v, want %v", r, q.real(), got, rw)
							}
						}
						gr := userSpec{Groups: uc.U.Groups[gi : gi+1]}.real(order).Groups[0]
						if got := gr.HasPermission(q.real()); got != gw {
							return fmt.Errorf("group %+v has %s: got %v, want %v", g, q.real(), got, gw)
						}
					}
					if want || denied {
						c.NonTrivial()
					}
					c.ClassIf(want, "granted")
					c.ClassIf(denied && !want, "denied although allowed")
					c.ClassIf(denied && want, "denied by one role, granted by another")
					if got := u.HasPermission(q.real()); got != want {
						return fmt.Errorf("user %+v has %s: got %v, want %v", uc.U, q.real(), got, want)
					}
				}
				for _, n := range append(uc.Names, "admin", "dev") {
					want := false
					for gi, g := range uc.U.Groups {
						gw := false
						for _, r := range g {
							gw = gw || r.Name == n
						}
						want = want || gw
						if got := (userSpec{Groups: uc.U.Groups[gi : gi+1]}).real(order).Groups[0].HasRole(n); got != gw {
							return fmt.Errorf("group %+v has role %q: got %v, want %v", g, n, got, gw)
						}
					}
					if got := u.HasRole(n); got != want {
						return fmt.Errorf("user %+v has role %q: got %v, want %v", uc.U, n, got, want)
					}
				}
			}
			return nil
		})

	register("C16", "Permissions with any text and 1-5 levels as scope and any 32-bit access, and texts made of scopes, colons and access parts of every sort. Non-trivial: the text has a colon and something on both sides of the last one.",
		20000, 400000, func(t *rapid.T) parseCase {
			c := parseCase{Sep: genSeparator(t)}
			scope := rapid.OneOf(rapid.Custom(func(t *rapid.T) string { return string(genScope(t, true)) }), rapid.String(),
				rapid.StringMatching(`[a:*/]{0,8}`), rapid.StringMatching(`([a-c]/){0,5}[a-c]`))
			c.Perm = permSpec{Str(scope.Draw(t, "scope")), genAccess(t)}
			acc := rapid.OneOf(rapid.Map(rapid.Uint64Range(0, 1<<33), func(v uint64) string { return strconv.FormatUint(v, 10) }),
				rapid.Map(rapid.Uint32(), func(v uint32) string { return strconv.FormatUint(uint64(v), 10) }),
				rapid.SampledFrom([]string{"", "0", "-1", "+1", "007", " 1", "1 ", "0x1", "1e1", "4294967295", "4294967296", "18446744073709551616", "1_0", "١", "abc", "1.0"}))
			sep := rapid.SampledFrom([]string{":", ":", ":", ":", "", "::", ":1:"}).Draw(t, "sep")
			c.Text = Str(scope.Draw(t, "tscope") + sep + acc.Draw(t, "access"))
			return c
		}, func(c *Ctx, pc parseCase) error {
			ex, done := scopeSeparator(pc.Sep)
			defer done()
			c.ClassIf(pc.Sep != "", "other separator")
			for i, a := range namedAccesses {
				if a != 1<<i {
					return fmt.Errorf("access number %d has the value %d, so that permissions printed before mean something else", i, a)
				}
			}
			p := pc.Perm.real()
			levels := strings.Count(p.Scope, "/") + 1
			p.Scope = ex(p.Scope)
			got, err := auth.ParsePermission(p.String())
			if levels <= 3 {
				if err != nil || got != p {
					return fmt.Errorf("parsing the printed form %q of %#v gives %#v, %v", p.String(), p, got, err)
				}
			} else if err == nil {
				return fmt.Errorf("%q has %d levels but was accepted", p.String(), levels)
			}
			np, nerr := auth.NewPermission(p.Scope, p.Access)
			if (nerr == nil) != (levels <= 3) || nerr == nil && np != p {
				return fmt.Errorf("NewPermission(%q, %d) gives %#v, %v", p.Scope, p.Access, np, nerr)
			}
			text := ex(string(pc.Text))
			i := strings.LastIndexByte(text, ':')
			valid := i >= 0 && decimal.MatchString(text[i+1:])
			if i > 0 && i < len(text)-1 {
				c.NonTrivial()
			}
			var access uint64
			if valid {
				access, err = strconv.ParseUint(text[i+1:], 10, 32)
				valid = err == nil && strings.Count(ex(text[:i]), "/") <= 2
			}
			c.ClassIf(valid, "valid text")
			c.ClassIf(!valid, "invalid text")
			got, err = auth.ParsePermission(text)
			if valid && (err != nil || got.Scope != text[:i] || uint64(got.Access) != access) {
				return fmt.Errorf("parsing %q gives %#v, %v", text, got, err)
			}
			if !valid && err == nil {
				return fmt.Errorf("%q is no permission but parsing gives %#v", text, got)
			}
			return nil
		})

	register("C17", "AuthorizeAll, AuthorizeAny or Authorize with a supplier (0-3 permissions, an error, or both), and sequences of 1-6 requests of different principals or none through the same middleware. Non-trivial: at least two requests, one of them with a principal and permissions to check.",
		10000, 150000, func(t *rapid.T) authzCase {
			c := authzCase{Mode: rapid.SampledFrom([]string{"all", "any", "supAll", "supAny"}).Draw(t, "mode")}
			var us []userSpec
			var all []permSpec
			for i := 0; i < 2; i++ {
				us = append(us, genUser(t, fmt.Sprint("u", i)))
				all = append(all, us[i].perms()...)
			}
			list := func() (ps []permSpec) {
				for n := several(t, 0, 3, 20, "nperm"); n > 0; n-- {
					ps = append(ps, genRequested(t, all))
				}
				return
			}
			c.Perms = list()
			c.Lists = [][]permSpec{list(), list()}
			for n := several(t, 1, 6, 30, "nreq"); n > 0; n-- {
				q := authzReq{U: rapid.SampledFrom(us).Draw(t, "who"), Pointer: rapid.Bool().Draw(t, "ptr"), Supplier: rapid.IntRange(-2, 1).Draw(t, "list"), HErr: rapid.IntRange(0, 5).Draw(t, "herr") == 5}
				if rapid.IntRange(0, 5).Draw(t, "anon") == 5 {
					q.U = userSpec{Nil: true}
				}
				c.Reqs = append(c.Reqs, q)
			}
			return c
		}, runAuthz)

	register("C18", "Sequences of 1-6 requests through one mux with one or two principal suppliers, each giving a principal (of the framework's or an own type, with an identity of its own, an empty one or that of the others), none, or an error (with or without a principal), with or without a principal in the request's context, and optionally an authorization middleware below. Non-trivial: two consecutive requests with different outcomes.",
		8000, 120000, func(t *rapid.T) supplierCase {
			c := supplierCase{Two: rapid.Bool().Draw(t, "two"), Auth: rapid.Bool().Draw(t, "auth")}
			var all []permSpec
			for n := several(t, 1, 6, 30, "nreq"); n > 0; n-- {
				q := supplierReq{Outer: rapid.SampledFrom([]int{0, 0, 1, 1, 1, 2, 3}).Draw(t, "outer"), Inner: rapid.SampledFrom([]int{0, 0, 1, 1, 1, 2, 3}).Draw(t, "inner"), U: genUser(t, fmt.Sprint("user", n))}
				for i := 0; i < 3; i++ {
					q.IDs = append(q.IDs, rapid.IntRange(0, 2).Draw(t, "id"))
					q.Types = append(q.Types, rapid.IntRange(0, 2).Draw(t, "type"))
				}
				if rapid.Bool().Draw(t, "ctx") {
					q.Ctx = fmt.Sprint("ctx", n)
				}
				all = append(all, q.U.perms()...)
				c.Reqs = append(c.Reqs, q)
			}
			c.Perm = genRequested(t, all)
			return c
		}, runSupplier)
}

func runAuthz(c *Ctx, ac authzCase) error {
	errSup := stderrors.New("supplier failure")
	errH := stderrors.New("handler failure")
	var cur authzReq
	supplier := func(ctx context.Context, mc path.MatchingContext) ([]auth.Permission, error) {
		if cur.Supplier < 0 {
			if cur.Supplier < -1 {
				return reals(ac.Lists[0]), errSup // what it knows so far
			}
			return nil, errSup
		}
		return reals(ac.Lists[cur.Supplier]), nil
	}
	var mw middleware.Middleware
	switch ac.Mode {
	case "all":
		mw = middleware.AuthorizeAll(reals(ac.Perms)...)
	case "any":
		mw = middleware.AuthorizeAny(reals(ac.Perms)...)
	case "supAll":
		mw = middleware.Authorize(supplier, true)
	case "supAny":
		mw = middleware.Authorize(supplier, false)
	}
	type seen struct {
		mc  path.MatchingContext
		val any
		who auth.SecurityPrincipal
	}
	var ran []seen
	type key struct{}
	resp := response.PlainTextHttpResponse(299, "ok")
	h := mw(func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		ran = append(ran, seen{mc, ctx.Value(key{}), auth.GetSecurityPrincipalFromContext(ctx)})
		if cur.HErr {
			return nil, errH
		}
		return resp, nil
	})
	for k, q := range ac.Reqs {
		cur, ran = q, nil
		perms := ac.Perms
		var want error
		if strings.HasPrefix(ac.Mode, "sup") {
			if q.Supplier < 0 {
				want = errSup
			} else {
				perms = ac.Lists[q.Supplier]
			}
		}
		if want == nil {
			all, any := true, false
			for _, p := range perms {
				has := q.U.has(p)
				all, any = all && has, any || has
			}
			ok := all
			if strings.HasSuffix(strings.ToLower(ac.Mode), "any") {
				ok = any
			}
			if q.U.Nil || !ok {
				want = errors.ErrUnauthorizedRequest
			} else if q.HErr {
				want = errH
			}
			if !q.U.Nil && len(perms) > 0 && len(ac.Reqs) > 1 {
				c.NonTrivial()
			}
			c.ClassIf(q.U.Nil, "no principal")
			c.ClassIf(!q.U.Nil && ok, "authorized")
			c.ClassIf(!q.U.Nil && !ok, "unauthorized")
			c.ClassIf(any && !all, "some but not all permissions")
		} else {
			c.Class("supplier error")
		}
		ctx := context.WithValue(context.Background(), key{}, k)
		if !q.U.Nil {
			u := q.U.real(nil)
			if q.Pointer {
				ctx = context.WithValue(ctx, auth.SecurityPrincipalCtxKey, &u)
			} else {
				ctx = context.WithValue(ctx, auth.SecurityPrincipalCtxKey, u)
			}
		}
		req := newReq("GET", "/x")
		got, err := h(ctx, path.MatchingContext{R: req})
		where := fmt.Sprintf("request %d of %s(%v): principal %+v, error %v, handler ran %d times", k, ac.Mode, reals(perms), q.U, err, len(ran))
		if err != want {
			return fmt.Errorf("want error %v; %s", want, where)
		}
		reach := want == nil || want == errH
		if reach != (len(ran) == 1) || len(ran) > 1 {
			return fmt.Errorf("want the handler to run: %v; %s", reach, where)
		}
		if !reach {
			if got != nil {
				return fmt.Errorf("a refused request has a response; %s", where)
			}
			continue
		}
		if ran[0].mc.R != req || ran[0].val != any(k) || ran[0].who == nil || ran[0].who.Identity() != q.U.ID {
			return fmt.Errorf("the handler does not see the request as it came; %s", where)
		}
		if want == nil && got != response.HttpResponse(resp) {
			return fmt.Errorf("the response is not the handler's; %s", where)
		}
	}
	return nil
}

func runSupplier(c *Ctx, sc supplierCase) error {
	var logged []error
	m, err := gofre.NewMuxHandler(&gofre.Config{ErrLogFunc: func(err error) { logged = append(logged, err) }})
	if err != nil {
		return err
	}
	errSup := stderrors.New("supplier failure")
	var cur supplierReq
	give := func(kind, i int, name string) (auth.SecurityPrincipal, error) {
		switch kind {
		case 0:
			return nil, nil
		case 2:
			return nil, errSup
		case 3:
			return cur.principal(i, name+cur.U.ID), errSup
		}
		return cur.principal(i, name+cur.U.ID), nil
	}
	mws := []middleware.Middleware{middleware.SecurityPrincipalSupplier(func(context.Context, path.MatchingContext) (auth.SecurityPrincipal, error) {
		return give(cur.Outer, 1, "outer-")
	})}
	if sc.Two {
		mws = append(mws, middleware.SecurityPrincipalSupplier(func(context.Context, path.MatchingContext) (auth.SecurityPrincipal, error) {
			return give(cur.Inner, 2, "inner-")
		}))
	}
	if sc.Auth {
		mws = append(mws, middleware.AuthorizeAll(sc.Perm.real()))
	}
	var ran []string
	m.CommonMiddlewares(mws...)
	m.HandleGet("/who", func(ctx context.Context, mc path.MatchingContext) (response.HttpResponse, error) {
		who := markOf(auth.GetSecurityPrincipalFromContext(ctx))
		ran = append(ran, who)
		return response.PlainTextHttpResponse(299, who), nil
	})
	last := ""
	for k, q := range sc.Reqs {
		cur, ran, logged = q, nil, nil
		who, has, fails := "nobody", false, false
		if q.Ctx != "" {
			who, has = q.Ctx, true
		}
		step := func(kind int, name string) {
			if fails {
				return
			}
			switch kind {
			case 1:
				who, has = name+q.U.ID, true
			case 2, 3:
				fails = true
			}
		}
		step(q.Outer, "outer-")
		if sc.Two {
			step(q.Inner, "inner-")
		}
		unauthorized := sc.Auth && !fails && (!has || !q.U.has(sc.Perm))
		c.ClassIf(fails, "supplier error")
		c.ClassIf(!fails && !has, "no principal")
		c.ClassIf(!fails && has, "principal")
		c.ClassIf(unauthorized, "unauthorized")
		if k > 0 && last != who {
			c.NonTrivial()
		}
		last = who
		req := newReq("GET", "/who")
		if q.Ctx != "" {
			req = req.WithContext(context.WithValue(req.Context(), auth.SecurityPrincipalCtxKey, q.principal(0, q.Ctx)))
		}
		w := httptest.NewRecorder()
		m.ServeHTTP(w, req)
		where := fmt.Sprintf("request %d (%+v): status %d, body %q, handler saw %v, logged %v", k, q, w.Code, w.Body.String(), ran, logged)
		if fails || unauthorized {
			want := errSup
			if !fails {
				want = errors.ErrUnauthorizedRequest
			}
			if w.Code != 500 || len(ran) != 0 || len(logged) != 1 || !stderrors.Is(logged[0], want) {
				return fmt.Errorf("want the request to stop with %v; %s", want, where)
			}
			continue
		}
		if w.Code != 299 || len(ran) != 1 || ran[0] != who || w.Body.String() != who {
			return fmt.Errorf("want the handler to run as %q; %s", who, where)
		}
	}
	return nil
}
