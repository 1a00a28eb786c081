package main

// Building, introspection, lookups, URLs and configuration: B01 - B08.

import (
	"fmt"
	"sort"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

// fullOpt is for sites that have a bit of everything.
func fullOpt(g *G) SOpt {
	return SOpt{
		depth: g.big(3, 5), width: 3, maxNodes: g.big(10, 24), rich: g.bit(), slash: true, pGen: 0.15, pWide: 0.04, pHandler: 0.65, pStatic: 0.5, pWild: 0.15,
		pSub: 0.2, pTS: 0.2, pSec: 0.15, pRedirIns: 0.5, pStrict: 0.1, pLenTS: 0.15, pLenUnc: 0.15, pAsIs: 0.1, hosts: g.weighted(2, 2, 1, 1),
		pRed: 0.08, pRedAny: 0.04, pNA: 0.15, pPRC: 0.1, pRH: 0.1, pSD: 0.15, maxMethods: 3,
	}
}

func fullReq() ROpt {
	return ROpt{pExact: 0.6, pTLS: 0.3, pTS: 0.2, pUnclean: 0.15, pQuery: 0.1, methods: []string{"GET", "GET", "POST", "OPTIONS", "HEAD", "PUT"}}
}

// --- B01: all ways of building the tree.

type caseB01 struct {
	Site  *Site
	Plans [][]Step
	Modes []int
	Reqs  []Req
}

func genB01(g *G) caseB01 {
	var c = caseB01{Site: g.site(fullOpt(g))}
	for k := g.rng(1, 2); k > 0; k-- {
		c.Plans = append(c.Plans, g.plan(c.Site))
	}
	c.Modes = []int{g.intn(modes)}
	c.Reqs = g.requests(c.Site, fullReq(), 2, 8)
	return c
}

func planString(b *Built, plan []Step) string {
	var ss []string
	for _, st := range plan {
		ss = append(ss, fmt.Sprintf("#%d: %s up %d", st.ID, []string{"getter", "getter+config", "register", "register URL", "at", "register late", "implicit"}[st.M], st.Up))
	}
	return strings.Join(ss, ", ")
}

func checkB01(c caseB01, x *Ctx) error {
	type built struct {
		b    *Built
		name string
	}
	var bs []built
	for _, m := range c.Modes {
		c.Site.Mode = m
		bs = append(bs, built{build(c.Site), fmt.Sprintf("mode %d", m)})
	}
	for _, p := range c.Plans {
		var b *Built
		if err := try(func() { b = buildPlan(c.Site, p) }); err != nil {
			return fmt.Errorf("the tree can't be built by the plan %s: %v", planString(nil, p), err)
		}
		for _, st := range p {
			x.class(fmt.Sprintf("way %d", st.M))
		}
		bs = append(bs, built{b, "plan " + planString(b, p)})
	}
	if len(bs[0].b.nodes) > 2 {
		x.nontrivial()
	}
	var d0 = dump(bs[0].b.ro)
	for _, b := range bs[1:] {
		x.judge()
		if d := diffStrings(d0, dump(b.b.ro)); d != "" {
			return fmt.Errorf("the trees built by %s and %s differ: %s", bs[0].name, b.name, d)
		}
	}
	for _, q := range c.Reqs {
		var e = expect(c.Site, q)
		var first *Rec
		for i, b := range bs {
			var rec, err = send(b.b.ro, q)
			if err != nil {
				return err
			}
			x.judge()
			if e.Unspec == "" {
				if err := b.b.compare(q, e, rec, cmpOpt{vals: true, rem: true, location: true, code: true, allow: true}); err != nil {
					return fmt.Errorf("built by %s: %v", b.name, err)
				}
			}
			if i == 0 {
				first = rec
			} else if err := sameOutcome(first, rec); err != nil {
				return fmt.Errorf("%+v: the responses of the trees built by %s and %s differ: %v", q, bs[0].name, b.name, err)
			}
		}
		x.class(e.Kind)
	}
	return nil
}

// --- B04: introspection.

type caseB04 struct {
	Site *Site
	Plan []Step
	Mode int
	Use  bool // the plan is used
	Sets []Set4
	Scrb bool // what the accessors return is overwritten by the caller
}

// Set4 is a handler set for the methods M of the node N.
type Set4 struct {
	N   int    `json:"n"`
	Up  int    `json:"up"` // as in Step, -1: with the responder itself
	M   string `json:"m"`
	Tag string `json:"tag"`
}

func genB04(g *G) caseB04 {
	var c = caseB04{Site: g.site(fullOpt(g))}
	c.Use = g.bit()
	c.Plan = g.plan(c.Site)
	c.Mode = g.intn(modes)
	c.Scrb = g.prob(0.4)
	var all = c.Site.index()
	for k := g.rng(0, 4); k > 0; k-- {
		var n = pick(g, all)
		var st = Set4{N: n.id, Up: g.rng(-1, len(n.chain())-1), Tag: g.uniq("h")}
		st.M = g.methodList([]string{"GET", "POST", "OPTIONS", "HEAD", "OPTIONSX", "OPTION", "X-Y", "LINK"})
		if g.prob(0.15) {
			st.M = "!"
		}
		c.Sets = append(c.Sets, st)
	}
	return c
}

// checkPaths checks that the methods that take a template read what the
// responder's own methods do.
func (b *Built) checkPaths(n *Node) error {
	var r = b.resp[n.id]
	var same = func(via string, sd interface{}, c nm.Config, im nm.Impl, code int, h, na nm.Handler, rh nm.RedirectHandler) error {
		var bad = func(f string, a ...interface{}) error {
			return fmt.Errorf("%s, asked by %s: %s", b.nodeName(n), via, fmt.Sprintf(f, a...))
		}
		if sd != r.SharedData() {
			return bad("the shared data is %v, not %v", sd, r.SharedData())
		}
		if c != r.Configuration() {
			return bad("the configuration is %+v, not %+v", c, r.Configuration())
		}
		if im != r.Implementation() {
			return bad("the implementation is %v", im)
		}
		var prc = n.PRC
		if prc == 0 {
			prc = nm.PermanentRedirectCode()
		}
		if code != prc || prc != r.PermanentRedirectCode() {
			return bad("the redirect code is %d and %d, not %d", code, r.PermanentRedirectCode(), prc)
		}
		if (h != nil) != (len(n.M) > 0) {
			return bad("the handler of the method is nil: %v", h == nil)
		}
		if h != nil {
			if err := b.probe(h, n, "method", n.M[0]); err != nil {
				return bad("the handler of %s: %v", n.M[0], err)
			}
		}
		if n.NA {
			if err := b.probe(na, n, "na", "X"); err != nil {
				return bad("the handler of !: %v", err)
			}
		}
		var rec = newRec()
		var req, _ = makeRequest(Req{Method: "GET", Host: "x", Target: "/"})
		rh(rec, req, "/there", 302, &nm.Args{})
		if rec.code != 302 || (len(rec.obs) == 1 && rec.obs[0].Node == n.id) != n.RH {
			return bad("the redirect handler is another one")
		}
		return nil
	}
	var m = "GET"
	if len(n.M) > 0 {
		m = n.M[0]
	}
	var na nm.Handler
	for _, a := range n.chain()[:len(n.chain())-1] {
		var u, p = n.address(a, n.id*2654435761>>3&4095), b.resp[a.id]
		if n.NA {
			na = p.PathHandlerOf("!", u)
		}
		var err = same(b.nodeName(a)+" for "+u, p.SharedDataAt(u), p.ConfigurationAt(u), p.ImplementationAt(u), p.PermanentRedirectCodeAt(u), p.PathHandlerOf(m, u), na, p.RedirectHandlerAt(u))
		if err != nil {
			return err
		}
	}
	var u, p = n.address(nil, n.id*2654435761>>3&4095), b.ro
	if n.NA {
		na = p.URLHandlerOf("!", u)
	}
	return same("the router for "+u, p.SharedDataAt(u), p.ConfigurationAt(u), p.ImplementationAt(u), p.PermanentRedirectCodeAt(u), p.URLHandlerOf(m, u), na, p.RedirectHandlerAt(u))
}

// checkSets sets the handlers and checks that each of the methods got its one
// and the others have kept theirs.
func (b *Built) checkSets(sets []Set4) error {
	type key struct {
		n int
		m string
	}
	var want = map[key]string{}
	var touched = map[int]bool{}
	for _, st := range sets {
		var n = b.nodes[st.N-1]
		var h = tagHandler(st.Tag)
		switch {
		case st.Up < 0:
			b.resp[n.id].SetHandlerFor(st.M, h)
		case n.up(st.Up) == nil || st.Up == 0:
			b.ro.SetURLHandlerFor(st.M, n.address(nil, 0), h)
		default:
			b.resp[n.up(st.Up).id].SetPathHandlerFor(st.M, n.address(n.up(st.Up), 0), h)
		}
		touched[n.id] = true
		for _, m := range methodsIn(st.M) {
			want[key{n.id, m}] = st.Tag
		}
	}
	for id := range touched {
		var n, r = b.nodes[id-1], b.resp[id]
		var ms = append([]string(nil), n.M...)
		for k := range want {
			if k.n == id && k.m != "!" && !contains(ms, k.m) {
				ms = append(ms, k.m)
			}
		}
		for _, m := range append(append([]string{"!"}, ms...), "GET", "OPTIONS", "OPTIONSX", "OPTION") {
			var tag, set = want[key{id, m}]
			var h = r.HandlerOf(m)
			if !set {
				if m == "!" && h == nil || m != "!" && (h != nil) != (contains(ms, m) || m == "OPTIONS" && len(ms) > 0) {
					return fmt.Errorf("%s after %+v: HandlerOf(%s) is nil: %v", b.nodeName(n), sets, m, h == nil)
				}
				if contains(n.M, m) {
					if err := b.probe(h, n, "method", m); err != nil {
						return fmt.Errorf("%s after %+v: HandlerOf(%s): %v", b.nodeName(n), sets, m, err)
					}
				}
				continue
			}
			var rec = newRec()
			var req, _ = makeRequest(Req{Method: "GET", Host: "x", Target: "/"})
			if h == nil {
				return fmt.Errorf("%s after %+v: HandlerOf(%s) is nil", b.nodeName(n), sets, m)
			}
			h(rec, req, &nm.Args{})
			if len(rec.trace) != 1 || rec.trace[0] != "="+tag {
				return fmt.Errorf("%s after %+v: HandlerOf(%s) is another one: %v", b.nodeName(n), sets, m, rec.trace)
			}
		}
		if len(ms) > 0 && !contains(ms, "OPTIONS") {
			ms = append(ms, "OPTIONS")
		}
		var got = sortedStrings(append([]string(nil), r.AllowedHTTPMethods()...))
		if want := sortedStrings(ms); strings.Join(got, " ") != strings.Join(want, " ") {
			return fmt.Errorf("%s after %+v: AllowedHTTPMethods are %v, must be %v", b.nodeName(n), sets, got, want)
		}
	}
	return nil
}

func methodsIn(s string) []string {
	return strings.FieldsFunc(strings.ToUpper(s), func(r rune) bool { return r == ' ' || r == ',' })
}

// wantConfig is the configuration the node's responder must report.
func (n *Node) wantConfig() nm.Config {
	var c = n.config()
	c.Secure, c.HasTrailingSlash = n.Sec, n.TS
	c.LenientOnTrailingSlash = n.C.lenTS()
	c.LenientOnUncleanPath = n.C.lenUnc()
	c.HandlesThePathAsIs = n.C.lenTS() && n.C.lenUnc()
	return c
}

// checkAccessors compares what the responder of the node tells with the node.
func (b *Built) checkAccessors(n *Node) error {
	var r = b.resp[n.id]
	var bad = func(f string, a ...interface{}) error {
		return fmt.Errorf("%s: %s", b.nodeName(n), fmt.Sprintf(f, a...))
	}
	if r.Name() != n.T.effName() {
		return bad("Name is %q, must be %q", r.Name(), n.T.effName())
	}
	if r.Template().Name() != n.T.effName() {
		return bad("template's name is %q", r.Template().Name())
	}
	if want := nm.Parse(n.T.str()); r.Template().SimilarityWith(want) != nm.TheSame {
		return bad("template is %s, must be %s", r.Template(), want)
	}
	if r.Router() != b.ro {
		return bad("Router is another one")
	}
	if c := r.Configuration(); c != n.wantConfig() {
		return bad("Configuration is %+v, must be %+v", c, n.wantConfig())
	}
	var c = n.wantConfig()
	for _, f := range []struct {
		n         string
		got, want bool
	}{
		{"IsSubtreeHandler", r.IsSubtreeHandler(), c.SubtreeHandler},
		{"IsSecure", r.IsSecure(), c.Secure},
		{"RedirectsInsecureRequest", r.RedirectsInsecureRequest(), c.RedirectsInsecureRequest},
		{"HasTrailingSlash", r.HasTrailingSlash(), c.HasTrailingSlash},
		{"IsStrictOnTrailingSlash", r.IsStrictOnTrailingSlash(), c.StrictOnTrailingSlash},
		{"IsLenientOnTrailingSlash", r.IsLenientOnTrailingSlash(), c.LenientOnTrailingSlash},
		{"IsLenientOnUncleanPath", r.IsLenientOnUncleanPath(), c.LenientOnUncleanPath},
		{"HandlesThePathAsIs", r.HandlesThePathAsIs(), c.HandlesThePathAsIs},
		{"HasAnyChildResources", r.HasAnyChildResources(), len(n.Kids) > 0},
	} {
		if f.got != f.want {
			return bad("%s is %v", f.n, f.got)
		}
	}
	var sd interface{}
	if n.SD != "" {
		sd = n.SD
	}
	if r.SharedData() != sd {
		return bad("SharedData is %v, must be %v", r.SharedData(), sd)
	}
	if r.Implementation() != nil {
		return bad("has an implementation")
	}
	var prc = n.PRC
	if prc == 0 {
		prc = nm.PermanentRedirectCode()
	}
	if r.PermanentRedirectCode() != prc {
		return bad("PermanentRedirectCode is %d, must be %d", r.PermanentRedirectCode(), prc)
	}
	// The handlers that are returned are the ones that have been set.
	for _, m := range append([]string{"GET", "POST", "SHARE"}, n.M...) {
		var h = r.HandlerOf(m)
		if (h != nil) != contains(n.M, m) {
			return bad("HandlerOf(%s) is nil: %v", m, h == nil)
		}
		if lh := r.HandlerOf(strings.ToLower(m)); (lh != nil) != (h != nil) {
			return bad("HandlerOf depends on the case of %s", m)
		}
		if h != nil {
			if err := b.probe(h, n, "method", m); err != nil {
				return bad("HandlerOf(%s): %v", m, err)
			}
		}
	}
	if (r.HandlerOf("OPTIONS") != nil) != (len(n.M) > 0) {
		return bad("HandlerOf(OPTIONS)")
	}
	if n.NA {
		if err := b.probe(r.HandlerOf("!"), n, "na", "X"); err != nil {
			return bad("HandlerOf(!): %v", err)
		}
	}
	var rh = r.RedirectHandler()
	if rh == nil {
		return bad("no redirect handler")
	}
	var rec = newRec()
	var req, _ = makeRequest(Req{Method: "GET", Host: "x", Target: "/"})
	rh(rec, req, "/there", 302, &nm.Args{})
	if rec.code != 302 || rec.hdr.Get("Location") != "/there" || (len(rec.obs) == 1 && rec.obs[0].Node == n.id) != n.RH {
		return bad("RedirectHandler isn't the right one")
	}

	// The place in the tree.
	var parent *nm.Resource
	if n.parent != nil && !n.parent.host {
		parent = b.resp[n.parent.id].(*nm.Resource)
	}
	var host *nm.Host
	if t := n.top(); t.host {
		host = b.resp[t.id].(*nm.Host)
	}
	if res, ok := r.(*nm.Resource); ok {
		if res.Parent() != parent {
			return bad("Parent is wrong")
		}
		if res.Host() != host {
			return bad("Host is wrong")
		}
	}
	var kids = r.ChildResources()
	if len(kids) != len(n.Kids) {
		return bad("has %d child resources, must have %d", len(kids), len(n.Kids))
	}
	for _, k := range kids {
		if kid := b.nodeOf(k); kid == nil || kid.parent != n {
			return bad("ChildResources has a resource %s that isn't its child", k.Template())
		}
	}
	for _, o := range b.nodes {
		var or, ok = b.resp[o.id].(*nm.Resource)
		if !ok {
			continue
		}
		if r.HasChildResource(or) != (o.parent == n) {
			return bad("HasChildResource(%s) is %v", b.nodeName(o), o.parent != n)
		}
		if name := o.T.effName(); name != "" {
			var want *nm.Resource
			for _, k := range n.Kids {
				if k.T.effName() == name {
					want = b.resp[k.id].(*nm.Resource)
				}
			}
			if r.ChildResourceNamed(name) != want {
				return bad("ChildResourceNamed(%q) is wrong", name)
			}
		}
	}
	if r.ChildResourceNamed("") != nil || r.ChildResourceNamed("no such name") != nil || r.HasChildResource(nil) {
		return bad("finds a child resource that doesn't exist")
	}
	return nil
}

// probe calls the handler and checks that it's the one of the node.
func (b *Built) probe(h nm.Handler, n *Node, kind, method string) error {
	var rec = newRec()
	var req, _ = makeRequest(Req{Method: "GET", Host: "x", Target: "/"})
	if h == nil {
		return fmt.Errorf("it's nil")
	}
	h(rec, req, &nm.Args{})
	if len(rec.obs) != 1 || rec.obs[0].Node != n.id || rec.obs[0].Kind != kind {
		return fmt.Errorf("it's another handler: %s", obsString(rec.obs))
	}
	if kind == "method" && rec.obs[0].Method != method {
		return fmt.Errorf("it's the handler of %s", rec.obs[0].Method)
	}
	return nil
}

func (b *Built) nodeOf(r responder) *Node {
	for _, n := range b.nodes {
		if b.resp[n.id] == r {
			return n
		}
	}
	return nil
}

// fill finds the responders that have been created implicitly.
func (b *Built) fill() error {
	for _, n := range b.nodes {
		if b.resp[n.id] != nil {
			continue
		}
		var r responder
		switch {
		case n.host:
			for _, h := range b.ro.Hosts() {
				if h.Template().SimilarityWith(nm.Parse(n.T.str())) == nm.TheSame {
					r = h
				}
			}
		case n.root:
			if rr := rootOf(b.ro); rr != nil {
				r = rr
			}
		default:
			for _, k := range b.resp[n.parent.id].ChildResources() {
				if k.Template().SimilarityWith(nm.Parse(n.T.str())) == nm.TheSame {
					r = k
				}
			}
		}
		if r == nil {
			return fmt.Errorf("%s doesn't exist", b.nodeName(n))
		}
		b.keep(n, r)
	}
	return nil
}

func (b *Built) checkTree() error {
	if err := b.fill(); err != nil {
		return err
	}
	for _, n := range b.nodes {
		if err := b.checkAccessors(n); err != nil {
			return err
		}
	}
	var hs = b.ro.Hosts()
	if len(hs) != len(b.site.Hosts) {
		return fmt.Errorf("the router has %d hosts, must have %d", len(hs), len(b.site.Hosts))
	}
	if b.ro.HasAnyHost() != (len(hs) > 0) {
		return fmt.Errorf("HasAnyHost is %v with %d hosts", b.ro.HasAnyHost(), len(hs))
	}
	for _, h := range hs {
		var n = b.nodeOf(h)
		if n == nil {
			return fmt.Errorf("the router has the host %s that hasn't been registered", h.Template())
		}
		if !b.ro.HasHost(h) {
			return fmt.Errorf("HasHost(%s) is false", b.nodeName(n))
		}
		if name := n.T.effName(); name != "" && b.ro.HostNamed(name) != h {
			return fmt.Errorf("HostNamed(%q) isn't %s", name, b.nodeName(n))
		}
	}
	if b.ro.HasHost(nil) || b.ro.HasHost(nm.NewDormantHost("http://example.com")) || b.ro.HostNamed("") != nil || b.ro.HostNamed("no such name") != nil {
		return fmt.Errorf("the router finds a host that it doesn't have")
	}
	if r := rootOf(b.ro); b.site.Root != nil && (r == nil || b.resp[b.site.Root.id] != responder(r)) {
		return fmt.Errorf("the root resource is wrong")
	}
	return nil
}

// scribble overwrites the slices that the accessors have returned. They are the
// caller's.
func (b *Built) scribble() {
	var hs = b.ro.Hosts()
	for i := range hs {
		hs[i] = nil
	}
	for _, n := range b.nodes {
		var r = b.resp[n.id]
		var rs = r.ChildResources()
		for i := range rs {
			rs[i] = nil
		}
		_ = append(rs[:0:cap(rs)], nm.NewDormantResource("/scribbled"))
		var ss = [][]string{r.AllowedHTTPMethods(), r.Template().ValueNames()}
		for _, s := range ss {
			s = s[:cap(s)]
			for i := range s {
				s[i] = "scribbled"
			}
		}
	}
}

func checkB04(c caseB04, x *Ctx) error {
	c.Site.Mode = c.Mode
	var b *Built
	if c.Use {
		b = newBuilt(c.Site)
		b.seen = map[responder]bool{}
		b.buildPlan(c.Plan)
	} else {
		b = build(c.Site)
	}
	x.judge()
	if len(b.nodes) > 2 {
		x.nontrivial()
	}
	x.class(fmt.Sprintf("%d nodes", len(b.nodes)/4*4))
	if err := b.checkTree(); err != nil {
		return err
	}
	if c.Scrb {
		b.scribble()
		if err := b.checkTree(); err != nil {
			return fmt.Errorf("after the returned slices have been overwritten: %v", err)
		}
	}
	if err := b.checkLeft(x); err != nil {
		return err
	}
	for _, n := range b.nodes {
		if c.Use && !(builtSite{Plan: c.Plan}).explicit(n.id) {
			continue
		}
		if err := b.checkPaths(n); err != nil {
			return err
		}
	}
	return b.checkSets(c.Sets)
}

func init() {
	register("B01", opts{
		quick: 180000, thorough: 2000000,
		rule:   "the tree has more than two responders (it's built in one of 8 uniform ways and in one or two plans that choose the order and the method for each node)",
		assume: []string{"trees without conflicts", "nodes without handlers aren't registered over implicitly created ones (the existing one is kept then)"},
	}, genB01, checkB01)
	register("B04", opts{
		quick: 90000, thorough: 1500000,
		rule: "the tree has more than two responders",
	}, genB04, checkB04)
}

var _ = sort.Strings
