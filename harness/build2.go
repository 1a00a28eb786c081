package main

// Building the same tree in any order with any method for each node, and
// describing a built tree through the public API.

import (
	"fmt"
	"runtime"
	"sort"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

// Step says how a node is built. M is the method, Up says how far up the
// responder used is: 0 is the router, 1 the parent, 2 the parent's parent...
type Step struct {
	ID int `json:"id"`
	M  int `json:"m"`
	Up int `json:"up"`
}

// The ways of building a node.
const (
	wGetter     = iota // ResourceUsingConfig, HostUsingConfig
	wGetterPlus        // Resource or Host, then SetConfiguration
	wRegister          // a new responder with the template, RegisterResource(Under)
	wRegURL            // a new responder with the URL template
	wAt                // the methods that take a template
	wLate              // as wRegister, the handlers are set after registering
	wSkip              // it's created implicitly
	nWays
)

// isPat: patterns are tried in the order of registration.
func (t *Tmpl) isPat() bool { return !t.isStatic() && !t.isWild() }

// dull nodes can be left to be created implicitly.
func (n *Node) dull() bool {
	return len(n.M) == 0 && !n.NA && n.Red == "" && n.PRC == 0 && !n.RH && n.SD == "" && n.C == Cfg{} && !n.Sec && !n.TS && n.T.Name == "" && len(n.Kids) > 0
}

// plan draws an order and the ways. The order keeps the order of the first
// appearances of sibling patterns.
func (g *G) plan(s *Site) []Step {
	var all = s.index()
	var built, touched = map[int]bool{}, map[int]bool{}
	var siblings = func(n *Node) []*Node {
		if n.parent == nil {
			return s.Hosts
		}
		return n.parent.Kids
	}
	var allowed = func(n *Node) bool {
		for _, a := range n.chain() {
			if touched[a.id] || a.root || !a.T.isPat() {
				continue
			}
			for _, sb := range siblings(a) {
				if sb == a {
					break
				}
				if sb.T.isPat() && !touched[sb.id] {
					return false
				}
			}
		}
		return true
	}
	var inOrder = g.prob(0.3)
	var plan []Step
	for len(plan) < len(all) {
		var cands []*Node
		for _, n := range all {
			if !built[n.id] && allowed(n) {
				cands = append(cands, n)
			}
		}
		var n = cands[0]
		if !inOrder {
			n = pick(g, cands)
		}
		var st = Step{ID: n.id, M: g.intn(wSkip)}
		if n.dull() && g.prob(0.5) {
			st.M = wSkip
		}
		var implicit = touched[n.id] // it's already there, created implicitly
		if implicit && len(n.M) == 0 && (st.M == wRegister || st.M == wRegURL) || implicit && st.M == wLate {
			// The registered one would be dropped in favor of the existing one.
			st.M = wGetter
		}
		if n.parent != nil {
			var ups []int
			for a, k := n.parent, 1; a != nil; a, k = a.parent, k+1 {
				if built[a.id] {
					ups = append(ups, k)
				}
			}
			if len(ups) > 0 && g.prob(0.6) {
				st.Up = pick(g, ups)
			}
		}
		plan = append(plan, st)
		if st.M != wSkip {
			built[n.id] = true
			for _, a := range n.chain() {
				touched[a.id] = true
			}
		} else {
			// It'll be touched by the ones below it.
			built[n.id] = true
		}
	}
	// A skipped node isn't to be used by the others.
	var skipped = map[int]bool{}
	for _, st := range plan {
		if st.M == wSkip {
			skipped[st.ID] = true
		}
	}
	for i, st := range plan {
		var n = all[st.ID-1]
		for st.Up > 0 && skipped[n.up(st.Up).id] {
			st.Up++
			if n.up(st.Up) == nil {
				st.Up = 0
				break
			}
		}
		// The farther ancestors may have not been built yet.
		if st.Up > 0 {
			var anc, ok = n.up(st.Up), false
			for _, p := range plan[:i] {
				ok = ok || p.ID == anc.id && p.M != wSkip
			}
			if !ok {
				st.Up = 0
			}
		}
		plan[i] = st
	}
	return plan
}

// up returns the k-th node above n.
func (n *Node) up(k int) *Node {
	for ; k > 0 && n != nil; k-- {
		n = n.parent
	}
	return n
}

// pathFrom is the path template of n relative to the ancestor.
func (n *Node) pathFrom(a *Node) string {
	var sb strings.Builder
	var in = a == nil || !contains2(n.chain(), a)
	for _, c := range n.chain() {
		if in && !c.host && !c.root {
			sb.WriteString("/" + c.T.pathStr())
		}
		if c == a {
			in = true
		}
	}
	return sb.String()
}

func contains2(ns []*Node, n *Node) bool {
	for _, e := range ns {
		if e == n {
			return true
		}
	}
	return false
}

// urlFrom is the URL template of n from the ancestor's, or the router's view.
func (n *Node) urlFrom(a *Node) string {
	if a == nil {
		return n.fullURL()
	}
	return n.scheme() + "://" + n.pathFrom(a) + n.slash()
}

// buildPlan builds the site as the plan says.
func buildPlan(s *Site, plan []Step) *Built {
	return newBuilt(s).buildPlan(plan)
}

func (b *Built) buildPlan(plan []Step) *Built {
	for _, st := range plan {
		b.step(b.nodes[st.ID-1], st)
		if b.seen != nil {
			b.look()
		}
	}
	return b
}

// reachable returns the responders of the tree. In a tree that's still to be
// built, the root isn't looked up, as that configures it.
func (b *Built) reachable(final bool) map[responder]bool {
	var rs = map[responder]bool{}
	var visit func(r responder)
	visit = func(r responder) {
		if rs[r] {
			return
		}
		rs[r] = true
		for _, k := range r.ChildResources() {
			visit(k)
		}
	}
	for _, h := range b.ro.Hosts() {
		visit(h)
	}
	if final {
		if r := rootOf(b.ro); r != nil {
			visit(r)
		}
		return rs
	}
	for _, r := range b.resp {
		if res, ok := r.(*nm.Resource); ok {
			for res.Parent() != nil {
				res = res.Parent()
			}
			visit(res)
		}
	}
	return rs
}

// look remembers the responders that are in the tree now.
func (b *Built) look() {
	for r := range b.reachable(false) {
		b.seen[r] = true
	}
}

// checkLeft checks that what was in the tree before, or wasn't kept, has no
// place in it anymore.
func (b *Built) checkLeft(x *Ctx) error {
	var in = b.reachable(true)
	for r := range b.seen {
		if in[r] {
			continue
		}
		x.class("replaced responders")
		if r.Router() != nil {
			return fmt.Errorf("the responder %s has a router, but it isn't in the router's tree", r.Template())
		}
		if len(r.ChildResources()) > 0 || r.HasAnyChildResources() {
			return fmt.Errorf("the responder %s isn't in the tree anymore and has child resources", r.Template())
		}
		if res, ok := r.(*nm.Resource); ok {
			if p := res.Parent(); p != nil && !p.HasChildResource(res) {
				return fmt.Errorf("the resource %s has a parent %s that doesn't have it", res.Template(), p.Template())
			}
			if res.Host() != nil {
				return fmt.Errorf("the resource %s isn't in the tree anymore and has a host", res.Template())
			}
		}
	}
	return nil
}

func (b *Built) keep(n *Node, r responder) {
	b.resp[n.id] = r
	b.ids[r] = n.id
}

func (b *Built) step(n *Node, st Step) {
	var anc *Node
	var ar responder
	if st.Up > 0 {
		anc = n.up(st.Up)
		ar = b.resp[anc.id]
	}
	var u = n.urlFrom(anc)
	switch st.M {
	case wSkip:
	case wGetter:
		switch {
		case n.host:
			b.add(n, b.ro.HostUsingConfig(u, n.config()))
		case ar != nil:
			b.add(n, ar.ResourceUsingConfig(u, n.config()))
		default:
			b.add(n, b.ro.ResourceUsingConfig(u, n.config()))
		}
	case wGetterPlus:
		var r responder
		switch {
		case n.host:
			r = b.ro.Host(u)
		case ar != nil:
			r = ar.Resource(u)
		default:
			r = b.ro.Resource(u)
		}
		if n.C != (Cfg{}) {
			r.SetConfiguration(n.config())
		}
		b.add(n, r)
	case wRegister, wLate:
		var r responder
		var under = "http://"
		switch {
		case n.host:
			r = newResp(n, n.hostURL())
		case ar == nil && n.parent != nil && n.Sec && !n.C.RedirIns && n.id%2 == 0:
			// It's made secure by the URL it's registered under.
			under = "https://"
			var plain = *n
			plain.Sec = false
			r = newResp(&plain, plain.relURL())
		default:
			r = newResp(n, n.relURL())
		}
		if st.M == wRegister {
			b.add(n, r)
		}
		switch {
		case n.parent == nil:
			b.registerTop(n, r)
		case ar != nil && st.Up == 1:
			ar.RegisterResource(r.(*nm.Resource))
		case ar != nil:
			ar.RegisterResourceUnder(n.parent.pathFrom(anc), r.(*nm.Resource))
		default:
			var pre = n.parent.path()
			if h := n.hostPart(); h != "" {
				b.ro.RegisterResourceUnder(under+h+pre, r.(*nm.Resource))
			} else if under == "https://" {
				if pre == "" {
					pre = "/"
				}
				b.ro.RegisterResourceUnder(under+pre, r.(*nm.Resource))
			} else if pre != "" {
				b.ro.RegisterResourceUnder(pre, r.(*nm.Resource))
			} else {
				b.ro.RegisterResource(r.(*nm.Resource))
			}
		}
		if st.M == wLate {
			b.add(n, r)
		}
	case wRegURL:
		var r = newResp(n, n.fullURL())
		b.add(n, r)
		if n.parent == nil || ar == nil {
			b.registerTop(n, r)
		} else {
			ar.RegisterResource(r.(*nm.Resource))
		}
	case wAt:
		if ar != nil {
			ar.SetConfigurationAt(u, n.config())
			for _, m := range n.M {
				ar.SetPathHandlerFor(m, u, b.methodHandler(n.id, m))
			}
			if n.SD != "" {
				ar.SetSharedDataAt(u, n.SD)
			}
			if n.PRC > 0 {
				ar.SetPermanentRedirectCodeAt(u, n.PRC)
			}
			if n.RH {
				ar.SetRedirectHandlerAt(u, b.redirectHandler(n.id))
			}
			if n.NA {
				ar.SetPathHandlerFor("!", u, b.handler(n.id, "na"))
			}
			if n.Red != "" {
				if n.RedAny {
					ar.RedirectAnyRequestAt(u, n.Red, n.RedCode)
				} else {
					ar.RedirectRequestAt(u, n.Red, n.RedCode)
				}
			}
			b.keep(n, ar.RegisteredResource(u))
			return
		}
		b.ro.SetSharedDataAt(u, nil)
		b.ro.SetConfigurationAt(u, n.config())
		for _, m := range n.M {
			b.ro.SetURLHandlerFor(m, u, b.methodHandler(n.id, m))
		}
		if n.SD != "" {
			b.ro.SetSharedDataAt(u, n.SD)
		}
		if n.PRC > 0 {
			b.ro.SetPermanentRedirectCodeAt(u, n.PRC)
		}
		if n.RH {
			b.ro.SetRedirectHandlerAt(u, b.redirectHandler(n.id))
		}
		if n.NA {
			b.ro.SetURLHandlerFor("!", u, b.handler(n.id, "na"))
		}
		if n.Red != "" {
			if n.RedAny {
				b.ro.RedirectAnyRequestAt(u, n.Red, n.RedCode)
			} else {
				b.ro.RedirectRequestAt(u, n.Red, n.RedCode)
			}
		}
		if n.host {
			b.keep(n, b.ro.RegisteredHost(u))
		} else {
			b.keep(n, b.ro.RegisteredResource(u))
		}
	}
}

// ---------------------------------------------------------------------------

// try runs f and returns what it panicked with.
// crash is a runtime error. It isn't a way of rejecting a call.
type crash struct{ error }

func isCrash(err error) bool {
	var _, ok = err.(crash)
	return ok
}

func try(f func()) (err error) {
	defer func() {
		if v := recover(); v != nil {
			err = fmt.Errorf("%v", v)
			if e, ok := v.(runtime.Error); ok {
				err = crash{e}
			}
		}
	}()
	f()
	return nil
}

// rootOf returns the router's root resource, or nil.
func rootOf(ro *nm.Router) *nm.Resource {
	var r *nm.Resource
	if try(func() { r = ro.RegisteredResource("http:///") }) != nil {
		r = ro.RegisteredResource("https:///")
	}
	return r
}

func configString(r responder) string {
	var sb strings.Builder
	for _, f := range []struct {
		n string
		v bool
	}{
		{"subtree", r.IsSubtreeHandler()}, {"secure", r.IsSecure()}, {"redirects", r.RedirectsInsecureRequest()},
		{"slash", r.HasTrailingSlash()}, {"strict", r.IsStrictOnTrailingSlash()}, {"lenient-slash", r.IsLenientOnTrailingSlash()},
		{"lenient-unclean", r.IsLenientOnUncleanPath()}, {"as-is", r.HandlesThePathAsIs()},
	} {
		if f.v {
			sb.WriteString(" " + f.n)
		}
	}
	return sb.String()
}

// describe returns a description of the responder through its accessors.
func describe(r responder) string {
	var ms = append([]string(nil), r.AllowedHTTPMethods()...)
	sort.Strings(ms)
	return fmt.Sprintf("%T %q %q%s %v %d %v %v", r, r.Name(), r.Template().String(), configString(r), ms, r.PermanentRedirectCode(), r.SharedData(), r.Implementation())
}

// dump describes all the responders of the router.
func dump(ro *nm.Router) []string {
	var out []string
	var visit func(r responder, path string)
	visit = func(r responder, path string) {
		out = append(out, path+" = "+describe(r))
		for _, k := range r.ChildResources() {
			visit(k, path+"/"+k.Template().Content())
		}
	}
	for _, h := range ro.Hosts() {
		visit(h, "//"+h.Template().Content())
	}
	if r := rootOf(ro); r != nil {
		visit(r, "")
	}
	sort.Strings(out)
	return out
}

func diffStrings(a, b []string) string {
	var in = func(s []string, e string) bool { return contains(s, e) }
	for _, e := range a {
		if !in(b, e) {
			return "only in the first: " + e
		}
	}
	for _, e := range b {
		if !in(a, e) {
			return "only in the second: " + e
		}
	}
	if len(a) != len(b) {
		return fmt.Sprintf("%d and %d entries", len(a), len(b))
	}
	return ""
}

// sameOutcome compares two records of the same request to two routers made
// from the same site.
func sameOutcome(a, b *Rec) error {
	var s = func(r *Rec) string {
		return fmt.Sprintf("status %d (%d), location %q, allow %q, handlers %s, trace %v", r.code, r.nCode, r.hdr.Get("Location"), r.hdr["Allow"], obsString(r.obs), r.trace)
	}
	if x, y := s(a), s(b); x != y {
		return fmt.Errorf("%s\nbut\n%s", x, y)
	}
	return nil
}
