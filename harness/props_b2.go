package main

// Lookups and the methods that take a template (B05), and URLs (B06).

import (
	"fmt"
	"net/url"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

// builtSite is a site together with the way it's built.
type builtSite struct {
	Site *Site  `json:"site"`
	Plan []Step `json:"plan,omitempty"` // when it's empty, the site's mode is used
}

func (g *G) builtSite(o SOpt) builtSite {
	var s = builtSite{Site: g.site(o)}
	if g.bit() {
		s.Plan = g.plan(s.Site)
	}
	return s
}

func (s builtSite) build() *Built {
	if len(s.Plan) > 0 {
		return buildPlan(s.Site, s.Plan)
	}
	return build(s.Site)
}

// explicit says whether the node's responder has been made explicitly.
func (s builtSite) explicit(id int) bool {
	for _, st := range s.Plan {
		if st.ID == id && st.M == wSkip {
			return false
		}
	}
	return true
}

// --- Naming a responder.

// tmplOrName renders the node's template, or only its name when that's asked
// for and the node has a name.
func (n *Node) tmplOrName(nameOnly bool) string {
	if name := n.T.effName(); nameOnly && name != "" && !n.root {
		return "$" + escName(name)
	}
	if n.host {
		return n.T.str()
	}
	return n.T.pathStr()
}

// address is the URL template of n as seen from the ancestor (nil: the
// router). In names, the i-th bit says that the i-th node on the way is given
// by its name.
func (n *Node) address(a *Node, names int) string {
	var sb strings.Builder
	sb.WriteString(n.scheme() + "://")
	var in = a == nil
	for i, c := range n.chain() {
		if in {
			var s = c.tmplOrName(names>>i&1 == 1)
			switch {
			case c.host:
				sb.WriteString(s)
			case c.root:
				if c == n {
					sb.WriteString("/")
				}
			default:
				sb.WriteString("/" + s)
			}
		}
		if c == a {
			in = true
		}
	}
	return sb.String() + n.slash()
}

// --- B05: lookups and the methods that take a template.

// Op is a call that changes or asks the responder N. Via says how: -1 with its
// own method, 0 with the router's, or else with the method of the node with
// that id above it.
type Op struct {
	K     string   `json:"k"`
	N     int      `json:"n"`
	Via   int      `json:"via"`
	Names int      `json:"names,omitempty"`
	M     string   `json:"m,omitempty"` // methods
	Tags  []string `json:"tags,omitempty"`
	C     *Cfg     `json:"c,omitempty"`
	Code  int      `json:"code,omitempty"`
	S     string   `json:"s,omitempty"`
	New   *Place   `json:"new,omitempty"` // a place that has no responder yet
}

// Place is below the operation's node, or at a host of its own.
type Place struct {
	Host string `json:"host,omitempty"`
	Seg  string `json:"seg,omitempty"`
	Sec  bool   `json:"sec,omitempty"`
	TS   bool   `json:"ts,omitempty"`
}

func (p *Place) url(prefix string) string {
	var s = "http://"
	if p.Sec {
		s = "https://"
	}
	s += prefix + p.Seg
	if p.TS && p.Seg != "" && p.Seg != "/" {
		s += "/"
	}
	return s
}

func (g *G) place(o *Op, all []*Node) {
	var p = &Place{Sec: g.prob(0.3), TS: g.prob(0.3)}
	var n = pick(g, all)
	o.N = n.id
	o.Via = g.via(n)
	if g.prob(0.3) {
		o.Via = n.id
	}
	if g.prob(0.25) {
		o.Via = 0
		p.Host = pick(g, []string{"zn.test", "$znh:zn2.test", "{znv}.zn3.test", `{znv:zn\\d+}.test`, "$znw:{znw:x|y}.zn4.test"})
		if g.bit() {
			p.Seg = pick(g, []string{"/", "/zn", "/zn/a", "/{znp}"})
		}
	} else {
		p.Seg = pick(g, []string{"zn", "$zn-name:zn5", "zn/a", "$zn-m:zn/{znv:a|b}", `{znv:zn\\d+}`, "zn-{znw:x|y}-zn", "zn/b/c"})
	}
	if o.C != nil {
		o.C.RedirIns = o.C.RedirIns && p.Sec
	}
	o.New = p
}

// placeURL is the place as seen from the ancestor (nil: the router).
func (b *Built) placeURL(o Op, a *Node) string {
	if o.New.Host != "" {
		return o.New.url(o.New.Host)
	}
	var n = *b.nodes[o.N-1]
	if a != nil && a.id == n.id {
		return o.New.url("/")
	}
	n.TS = !n.root
	var s = n.address(a, 0)
	return o.New.url(strings.TrimPrefix(s, n.scheme()+"://"))
}

// atPlace gets or makes the responder of the place.
func (b *Built) atPlace(o Op) responder {
	if o.New.Host == "" {
		var r = b.resp[o.N]
		var u = b.placeURL(o, b.nodes[o.N-1])
		if o.C != nil && r.RegisteredResource(u) == nil {
			return r.ResourceUsingConfig(u, (&Node{C: *o.C}).config())
		}
		return r.Resource(u)
	}
	var u = b.placeURL(o, nil)
	if o.New.Seg != "" && o.New.Seg != "/" {
		if o.C != nil && b.ro.RegisteredResource(u) == nil {
			return b.ro.ResourceUsingConfig(u, (&Node{C: *o.C}).config())
		}
		return b.ro.Resource(u)
	}
	if o.C != nil && b.ro.RegisteredHost(u) == nil {
		return b.ro.HostUsingConfig(u, (&Node{C: *o.C}).config())
	}
	return b.ro.Host(u)
}

type caseB05 struct {
	builtSite
	Looks []Look
	Ops   []Op
	Reqs  []Req
}

// Look is a lookup. How tells what's wrong with the template.
type Look struct {
	N     int    `json:"n"`
	Via   int    `json:"via"`
	Names int    `json:"names,omitempty"`
	How   string `json:"how,omitempty"`
	Seg   string `json:"seg,omitempty"`
	Other int    `json:"other,omitempty"` // the node whose segment is looked for elsewhere
}

func (g *G) via(n *Node) int {
	if n.parent == nil || g.bit() {
		return 0
	}
	var c = n.chain()
	return pick(g, c[:len(c)-1]).id
}

var opKinds = []string{"data", "config", "handler", "na", "prc", "rh", "red", "redany", "wrapP", "wrapH", "wrapM", "wrapR", "impl"}

func (g *G) op(all []*Node, kinds []string) Op {
	var n = pick(g, all)
	var o = Op{K: pick(g, kinds), N: n.id, Via: g.via(n)}
	switch o.K {
	case "data":
		o.S = g.uniq("d")
	case "config":
		o.C = &Cfg{Sub: g.bit(), LenUnc: g.bit(), AsIs: g.prob(0.2)}
		if !n.root {
			o.C.Strict = g.prob(0.3)
			if !o.C.Strict {
				o.C.LenTS = g.prob(0.4)
			} else {
				o.C.AsIs = false
			}
		}
		if n.Sec {
			o.C.RedirIns = g.bit()
		}
	case "handler":
		o.M = g.methodList(stdMethods)
		o.S = g.uniq("h")
	case "na":
		o.S = g.uniq("h")
	case "prc":
		o.Code = pick(g, []int{301, 308})
	case "rh":
		o.S = g.uniq("r")
	case "red", "redany":
		o.S = pick(g, []string{"/moved", "/new/place/", "http://other.example/x", "moved"})
		o.Code = pick(g, []int{301, 302, 307, 308})
	case "wrapP", "wrapH", "wrapR":
		o.Tags = g.tags()
	case "wrapM":
		o.Tags = g.tags()
		o.M = "*"
	case "impl":
		o.S = pick(g, []string{"get", "postna", "none"})
	}
	return o
}

func (g *G) tags() []string {
	var ts []string
	for k := g.rng(1, 3); k > 0; k-- {
		ts = append(ts, g.uniq("m"))
	}
	return ts
}

// methodList draws a list of methods the way a user may write it.
func (g *G) methodList(ms []string) string {
	var sb strings.Builder
	for i, k := range g.shuffled(len(ms))[:g.rng(1, 3)] {
		if i > 0 {
			sb.WriteString(pick(g, []string{" ", ",", ", ", "  ", " ,"}))
		}
		if g.prob(0.25) {
			sb.WriteString(strings.ToLower(ms[k]))
		} else {
			sb.WriteString(ms[k])
		}
	}
	return sb.String()
}

func genB05(g *G) caseB05 {
	var c = caseB05{builtSite: g.builtSite(fullOpt(g))}
	var all = c.Site.index()
	for k := g.rng(1, 6); k > 0; k-- {
		var n = pick(g, all)
		var l = Look{N: n.id, Via: g.via(n), Names: g.intn(4096)}
		switch g.weighted(6, 1, 1, 1, 1, 1, 1, 1, 3) {
		case 1:
			l.How = "scheme"
		case 2:
			l.How = "slash"
		case 3:
			l.How, l.Seg = "below", pick(g, []string{"nosuch", "$nosuch", "{nosuch:nosuch}", "nosuch/x", "$nosuch/a"})
		case 4:
			l.How, l.Seg = "sibling", pick(g, []string{"nosuch", "$nosuch", "{nosuch:nosuch}"})
		case 5:
			l.How = "names"
			l.Names = 4095
		case 6:
			l.How = "segment as name"
		case 7:
			l.How, l.Seg = "name of another", pick(g, []string{"zz-x", `{zzq:zz\d}`, "{zzw}"})
		case 8:
			l.How, l.Other = "elsewhere", pick(g, all).id
			if g.bit() {
				l.Seg = "name"
			}
			if g.bit() {
				l.Via = n.id
			}
		}
		c.Looks = append(c.Looks, l)
	}
	var expl []*Node
	for _, n := range all {
		if c.explicit(n.id) {
			expl = append(expl, n)
		}
	}
	for k := g.rng(0, 6); k > 0 && len(expl) > 0; k-- {
		var o = g.op(expl, opKinds)
		o.Names = g.intn(4096)
		if o.K != "wrapM" && g.prob(0.3) {
			g.place(&o, expl)
			for _, p := range c.Ops {
				if p.New != nil && g.prob(0.3) {
					o.N, o.New = p.N, p.New
					o.Via = pick(g, []int{0, p.Via})
				}
			}
			if o.C != nil {
				o.C.RedirIns = o.C.RedirIns && o.New.Sec
				if o.New.Seg == "/" {
					o.C.Strict, o.C.LenTS, o.C.AsIs = false, false, false
				}
			}
		}
		c.Ops = append(c.Ops, o)
	}
	c.Reqs = g.requests(c.Site, fullReq(), 1, 6)
	for _, o := range c.Ops {
		if o.New == nil {
			continue
		}
		var q = g.requestTo(c.Site, all[o.N-1], fullReq())
		var seg = pick(g, []string{"zn", "zn5", "zn/a", "zn/b", "zn7", "zn-x-zn", "zn/b/c"})
		if o.New.Host != "" {
			q.Host = pick(g, []string{"zn.test", "zn2.test", "q.zn3.test", "zn3.test", "x.zn4.test"})
			q.Target = ""
		}
		if i := strings.IndexByte(q.Target, '?'); i >= 0 {
			q.Target = q.Target[:i]
		}
		q.Target = strings.TrimSuffix(q.Target, "/") + "/" + seg
		if o.New.TS == g.prob(0.8) {
			q.Target += "/"
		}
		c.Reqs = append(c.Reqs, q)
	}
	return c
}

// ask is a lookup done with the given responder or the router.
func (b *Built) ask(n *Node, via int, addr string) (r responder) {
	if via > 0 {
		if res := b.resp[via].RegisteredResource(addr); res != nil {
			return res
		}
		return nil
	}
	if n.host {
		if h := b.ro.RegisteredHost(addr); h != nil {
			return h
		}
		return nil
	}
	if res := b.ro.RegisteredResource(addr); res != nil {
		return res
	}
	return nil
}

func (b *Built) lookup(l Look, x *Ctx) error {
	var n = b.nodes[l.N-1]
	var a *Node
	if l.Via > 0 {
		a = b.nodes[l.Via-1]
	}
	var addr = n.address(a, l.Names)
	var m = *n
	var bad = func(f string, args ...interface{}) error {
		var from = "the router"
		if a != nil {
			from = b.nodeName(a)
		}
		return fmt.Errorf("%s asked for %q: %s", from, addr, fmt.Sprintf(f, args...))
	}
	var wantPanic, wantNil bool
	switch l.How {
	case "scheme":
		m.Sec = !m.Sec
		addr = m.address(a, l.Names)
		wantPanic = true
	case "slash":
		if n.root {
			return nil
		}
		m.TS = !m.TS
		addr = m.address(a, l.Names)
		wantPanic = !n.C.lenTS()
	case "below":
		m.TS = !n.root
		addr = m.address(a, l.Names) + l.Seg
		m.host = false // what's asked for is a resource
		wantNil = true
	case "elsewhere":
		var o = b.nodes[l.Other-1]
		if o.root {
			return nil
		}
		var seg = o.T.pathStr()
		if l.Seg == "name" {
			if o.T.effName() == "" {
				return nil
			}
			seg = "$" + escName(o.T.effName())
		}
		for _, k := range n.Kids {
			if o.T.effName() != "" && k.T.effName() == o.T.effName() || k.T.shape() == o.T.shape() {
				return nil
			}
		}
		if l.Via == n.id {
			addr = "http:///" + seg
		} else {
			m.TS = !n.root
			addr = m.address(a, l.Names) + seg
		}
		m.host = false
		wantNil = true
	case "sibling":
		if n.parent == nil {
			return nil
		}
		var p = *n.parent
		p.TS = !p.root
		if n.parent == a {
			addr = n.scheme() + ":///" + l.Seg
		} else {
			addr = p.address(a, l.Names)
			addr = n.scheme() + strings.TrimPrefix(addr, p.scheme()) + l.Seg
		}
		wantNil = true
	case "segment as name", "name of another":
		// The node's segment is a name of none, or its name is given to
		// another template.
		var seg string
		if l.How == "segment as name" {
			if n.root || !n.T.isStatic() || strings.ContainsAny(n.T.Parts[0].S, "{}:$\\/") {
				return nil
			}
			for _, k := range b.siblings(n) {
				if k.T.effName() == n.T.Parts[0].S {
					return nil
				}
			}
			seg = "$" + n.T.Parts[0].S
		} else {
			if n.root || n.T.effName() == "" || n.host && l.Seg == "{zzw}" {
				return nil
			}
			for _, k := range b.siblings(n) {
				if k.T.isWild() && l.Seg == "{zzw}" {
					return nil
				}
			}
			seg = "$" + escName(n.T.effName()) + ":" + l.Seg
		}
		addr = n.scheme() + "://" + seg + n.slash()
		if !n.host {
			var p = *n.parent
			p.TS = !p.root
			if n.parent == a {
				addr = n.scheme() + ":///" + seg + n.slash()
			} else {
				addr = n.scheme() + strings.TrimPrefix(p.address(a, l.Names), p.scheme()) + seg + n.slash()
			}
		}
		wantNil = true
	}
	var got responder
	var err = try(func() { got = b.ask(&m, l.Via, addr) })
	x.judge()
	x.class("lookup " + l.How)
	switch {
	case wantPanic:
		if err == nil || isCrash(err) {
			return bad("the incompatible scheme or trailing slash has been accepted")
		}
	case err != nil:
		return bad("%v", err)
	case wantNil:
		if got != nil {
			return bad("it gives a responder that doesn't exist: %s", got.Template())
		}
		if name := b.acceptsNonExistent(l.Via, addr); name != "" {
			return bad("%s hasn't panicked, or has crashed", name)
		}
	case got == nil || b.resp[n.id] != nil && got != b.resp[n.id]:
		return bad("it doesn't give the right responder")
	case b.resp[n.id] == nil:
		b.keep(n, got)
	}
	return nil
}

func (b *Built) siblings(n *Node) []*Node {
	if n.parent != nil {
		return n.parent.Kids
	}
	return b.site.Hosts
}

// acceptsNonExistent returns the name of a method that demands an existing
// responder and doesn't panic without one.
func (b *Built) acceptsNonExistent(via int, addr string) string {
	var ro, p = b.ro, b.resp[via]
	var fs = []struct {
		name string
		f    func()
	}{
		{"SharedDataAt", func() { ro.SharedDataAt(addr) }},
		{"ConfigurationAt", func() { ro.ConfigurationAt(addr) }},
		{"ImplementationAt", func() { ro.ImplementationAt(addr) }},
		{"URLHandlerOf", func() { ro.URLHandlerOf("GET", addr) }},
		{"PermanentRedirectCodeAt", func() { ro.PermanentRedirectCodeAt(addr) }},
		{"RedirectHandlerAt", func() { ro.RedirectHandlerAt(addr) }},
		{"WrapURLHandlerOf", func() { ro.WrapURLHandlerOf("*", addr, traceMw("x")) }},
	}
	if via > 0 {
		fs = []struct {
			name string
			f    func()
		}{
			{"SharedDataAt", func() { p.SharedDataAt(addr) }},
			{"ConfigurationAt", func() { p.ConfigurationAt(addr) }},
			{"ImplementationAt", func() { p.ImplementationAt(addr) }},
			{"PathHandlerOf", func() { p.PathHandlerOf("GET", addr) }},
			{"PermanentRedirectCodeAt", func() { p.PermanentRedirectCodeAt(addr) }},
			{"RedirectHandlerAt", func() { p.RedirectHandlerAt(addr) }},
			{"WrapPathHandlerOf", func() { p.WrapPathHandlerOf("*", addr, traceMw("x")) }},
		}
	}
	for _, f := range fs {
		if err := try(f.f); err == nil || isCrash(err) {
			return f.name
		}
	}
	return ""
}

// --- Calls.

// apply makes the call.
func (b *Built) apply(o Op, direct bool) {
	var n = b.nodes[o.N-1]
	var r = b.resp[o.N]
	var via = o.Via
	if direct {
		via = -1
	}
	var p responder
	var a *Node
	if via > 0 {
		a = b.nodes[via-1]
		p = b.resp[via]
	}
	var full, named = n.address(a, 0), n.address(a, o.Names)
	if o.New != nil {
		full = b.placeURL(o, a)
		named = full
		if direct {
			r = b.atPlace(o)
		}
	}
	var mws []nm.Middleware
	var rmws []func(nm.RedirectHandler) nm.RedirectHandler
	for _, t := range o.Tags {
		mws = append(mws, traceMw(t))
		rmws = append(rmws, traceRMw(t))
	}
	var cfg nm.Config
	if o.C != nil {
		cfg = (&Node{C: *o.C}).config()
	}
	switch o.K {
	case "data":
		switch {
		case via < 0:
			r.SetSharedData(o.S)
		case p != nil:
			p.SetSharedDataAt(full, o.S)
		default:
			b.ro.SetSharedDataAt(full, o.S)
		}
	case "config":
		switch {
		case via < 0:
			r.SetConfiguration(cfg)
		case p != nil:
			p.SetConfigurationAt(named, cfg)
		default:
			b.ro.SetConfigurationAt(named, cfg)
		}
	case "handler", "na":
		var h = tagHandler(o.S)
		var m = o.M
		if o.K == "na" {
			m = "!"
		}
		switch {
		case via < 0:
			r.SetHandlerFor(m, h)
		case p != nil:
			p.SetPathHandlerFor(m, full, h)
		default:
			b.ro.SetURLHandlerFor(m, full, h)
		}
	case "prc":
		switch {
		case via < 0:
			r.SetPermanentRedirectCode(o.Code)
		case p != nil:
			p.SetPermanentRedirectCodeAt(full, o.Code)
		default:
			b.ro.SetPermanentRedirectCodeAt(full, o.Code)
		}
	case "rh":
		var h = tagRedirect(o.S)
		switch {
		case via < 0:
			r.SetRedirectHandler(h)
		case p != nil:
			p.SetRedirectHandlerAt(full, h)
		default:
			b.ro.SetRedirectHandlerAt(full, h)
		}
	case "red":
		switch {
		case via < 0:
			r.RedirectRequestTo(o.S, o.Code)
		case p != nil:
			p.RedirectRequestAt(full, o.S, o.Code)
		default:
			b.ro.RedirectRequestAt(full, o.S, o.Code)
		}
	case "redany":
		switch {
		case via < 0:
			r.RedirectAnyRequestTo(o.S, o.Code)
		case p != nil:
			p.RedirectAnyRequestAt(full, o.S, o.Code)
		default:
			b.ro.RedirectAnyRequestAt(full, o.S, o.Code)
		}
	case "wrapP":
		switch {
		case via < 0:
			r.WrapRequestPasser(mws...)
		case p != nil:
			p.WrapRequestPasserAt(full, mws...)
		default:
			b.ro.WrapRequestPasserAt(full, mws...)
		}
	case "wrapH":
		switch {
		case via < 0:
			r.WrapRequestHandler(mws...)
		case p != nil:
			p.WrapRequestHandlerAt(full, mws...)
		default:
			b.ro.WrapRequestHandlerAt(full, mws...)
		}
	case "wrapM":
		switch {
		case via < 0:
			r.WrapHandlerOf(o.M, mws...)
		case p != nil:
			p.WrapPathHandlerOf(o.M, named, mws...)
		default:
			b.ro.WrapURLHandlerOf(o.M, named, mws...)
		}
	case "wrapR":
		switch {
		case via < 0:
			r.WrapRedirectHandler(rmws...)
		case p != nil:
			p.WrapRedirectHandlerAt(full, rmws...)
		default:
			b.ro.WrapRedirectHandlerAt(full, rmws...)
		}
	case "impl":
		var impl = simpleImpl(o.S)
		switch {
		case via < 0:
			r.SetImplementation(impl)
		case p != nil:
			p.SetImplementationAt(full, impl)
		default:
			b.ro.SetImplementationAt(full, impl)
		}
	}
}

// askAll compares what the methods that take a template tell about the
// responder with what it tells itself.
func (b *Built) askAll(o Op) error {
	var n = b.nodes[o.N-1]
	var r = b.resp[o.N]
	var a *Node
	var p responder
	if o.Via > 0 {
		a = b.nodes[o.Via-1]
		p = b.resp[o.Via]
	}
	var u = n.address(a, o.Names)
	var data interface{}
	var cfg nm.Config
	var impl nm.Impl
	var code int
	var rh nm.RedirectHandler
	var hs [4]nm.Handler
	var ms = []string{"GET", "post", "!", "OPTIONS"}
	if p != nil {
		data, cfg, impl, code, rh = p.SharedDataAt(u), p.ConfigurationAt(u), p.ImplementationAt(u), p.PermanentRedirectCodeAt(u), p.RedirectHandlerAt(u)
		for i, m := range ms {
			hs[i] = p.PathHandlerOf(m, u)
		}
	} else {
		data, cfg, impl, code, rh = b.ro.SharedDataAt(u), b.ro.ConfigurationAt(u), b.ro.ImplementationAt(u), b.ro.PermanentRedirectCodeAt(u), b.ro.RedirectHandlerAt(u)
		for i, m := range ms {
			hs[i] = b.ro.URLHandlerOf(m, u)
		}
	}
	var bad = func(what string, got, want interface{}) error {
		return fmt.Errorf("%s at %q is %v, the responder's own is %v", what, u, got, want)
	}
	if data != r.SharedData() {
		return bad("shared data", data, r.SharedData())
	}
	if cfg != r.Configuration() {
		return bad("configuration", cfg, r.Configuration())
	}
	if impl != r.Implementation() {
		return bad("implementation", impl, r.Implementation())
	}
	if code != r.PermanentRedirectCode() {
		return bad("permanent redirect code", code, r.PermanentRedirectCode())
	}
	var run = func(h nm.Handler) string {
		if h == nil {
			return "none"
		}
		var rec = newRec()
		var req, _ = makeRequest(Req{Method: "GET", Host: "x", Target: "/"})
		h(rec, req, &nm.Args{})
		return fmt.Sprintf("%d %s %v", rec.code, obsString(rec.obs), rec.trace)
	}
	for i, m := range ms {
		if x, y := run(hs[i]), run(r.HandlerOf(m)); x != y {
			return bad("handler of "+m, x, y)
		}
	}
	var runR = func(h nm.RedirectHandler) string {
		if h == nil {
			return "none"
		}
		var rec = newRec()
		var req, _ = makeRequest(Req{Method: "GET", Host: "x", Target: "/"})
		h(rec, req, "/there", 307, &nm.Args{})
		return fmt.Sprintf("%d %q %s %v", rec.code, rec.hdr.Get("Location"), obsString(rec.obs), rec.trace)
	}
	if x, y := runR(rh), runR(r.RedirectHandler()); x != y {
		return bad("redirect handler", x, y)
	}
	return nil
}

func checkB05(c caseB05, x *Ctx) error {
	var b = c.build()
	if err := b.fill(); err != nil {
		return err
	}
	var before = dump(b.ro)
	for _, l := range c.Looks {
		if !c.explicit(l.N) && (l.How == "scheme" || l.How == "slash") {
			continue
		}
		if err := b.lookup(l, x); err != nil {
			return err
		}
	}
	// What's been created implicitly may have been configured.
	if len(c.Plan) == 0 {
		if d := diffStrings(before, dump(b.ro)); d != "" {
			return fmt.Errorf("the lookups have changed the router: %s", d)
		}
	}
	if len(b.nodes) > 2 {
		x.nontrivial()
	}

	// The other router gets the same calls made to the responders themselves.
	b = c.build()
	var d = c.build()
	if err := b.fill(); err != nil {
		return err
	}
	if err := d.fill(); err != nil {
		return err
	}
	for _, o := range c.Ops {
		var e1 = try(func() { b.apply(o, false) })
		var e2 = try(func() { d.apply(o, true) })
		x.judge()
		x.class("op " + o.K)
		var n = b.nodes[o.N-1]
		if o.New != nil {
			x.class("new: op " + o.K)
			if (e1 == nil) != (e2 == nil) {
				return fmt.Errorf("%s at the new place %s via %d: %v, but when it's made first: %v", o.K, b.placeURL(o, nil), o.Via, e1, e2)
			}
			continue
		}
		if (e1 == nil) != (e2 == nil) {
			return fmt.Errorf("%s of %s via %d: %v, but by itself: %v", o.K, b.nodeName(n), o.Via, e1, e2)
		}
		if b.resp[n.id].IsLenientOnTrailingSlash() != d.resp[n.id].IsLenientOnTrailingSlash() {
			return fmt.Errorf("%s of %s: the configurations differ", o.K, b.nodeName(n))
		}
		if err := b.askAll(o); err != nil {
			return err
		}
	}
	if df := diffStrings(dump(b.ro), dump(d.ro)); df != "" {
		return fmt.Errorf("after the calls %s the routers differ: %s", opsString(c.Ops), df)
	}
	for _, q := range c.Reqs {
		var r1, err = send(b.ro, q)
		if err != nil {
			return err
		}
		r2, err := send(d.ro, q)
		if err != nil {
			return err
		}
		x.judge()
		if err := sameOutcome(r1, r2); err != nil {
			return fmt.Errorf("%+v after the calls %s: %v", q, opsString(c.Ops), err)
		}
	}
	return nil
}

func opsString(ops []Op) string {
	var ss []string
	for _, o := range ops {
		var at string
		if o.New != nil {
			at = fmt.Sprintf(" new %+v", *o.New)
		}
		ss = append(ss, fmt.Sprintf("%s #%d via %d%s %s%v", o.K, o.N, o.Via, at, o.M, o.Tags))
	}
	return strings.Join(ss, "; ")
}

// --- B06: URLs.

type caseB06 struct {
	builtSite
	N    int
	Vals map[string]string
	Host string // the prior values' order
	Miss string // the value that's left out
	Bad  string // the value that's replaced
	BadV string
	Rev  bool
}

func genB06(g *G) caseB06 {
	var o = fullOpt(g)
	o.pHandler, o.pRed, o.pRedAny, o.maxMethods, o.methods = 1, 0, 0, 1, []string{"GET"}
	var c = caseB06{builtSite: g.builtSite(o), Vals: map[string]string{}}
	var all = c.Site.index()
	var n = pick(g, all)
	c.N = n.id
	c.Rev = g.bit()
	var names []string
	for _, e := range n.chain() {
		for _, p := range e.T.Parts {
			if p.K == "s" || contains(names, p.N) {
				continue
			}
			names = append(names, p.N)
			if p.K == "w" {
				if e.host {
					c.Vals[p.N] = pick(g, plainWildVals)
				} else {
					c.Vals[p.N] = pick(g, wildVals)
				}
			} else {
				c.Vals[p.N] = pick(g, patOf(p.P).yes)
				if e.host && !okHost(c.Vals[p.N]) {
					c.Vals[p.N] = patOf(p.P).yes[0]
				}
			}
		}
	}
	if len(names) > 0 {
		switch g.weighted(6, 2, 2) {
		case 1:
			c.Miss = pick(g, names)
		case 2:
			c.Bad = pick(g, names)
			for _, e := range n.chain() {
				for _, p := range e.T.Parts {
					if p.K == "r" && p.N == c.Bad {
						c.BadV = pick(g, patOf(p.P).no)
					}
				}
			}
		}
	}
	return c
}

func (c *caseB06) values() nm.HostPathValues {
	var ns []string
	for n := range c.Vals {
		ns = append(ns, n)
	}
	sortedStrings(ns)
	if c.Rev {
		for i, k := 0, len(ns)-1; i < k; i, k = i+1, k-1 {
			ns[i], ns[k] = ns[k], ns[i]
		}
	}
	var vs nm.HostPathValues
	for _, n := range ns {
		switch {
		case n == c.Miss:
		case n == c.Bad:
			vs.Set(n, c.BadV)
		default:
			vs.Set(n, c.Vals[n])
		}
	}
	vs.Set("another value", "x")
	return vs
}

// made is the string made from the template with the values.
func (t *Tmpl) made(vals map[string]string) string {
	var sb strings.Builder
	for _, p := range t.Parts {
		if p.K == "s" {
			sb.WriteString(p.S)
		} else {
			sb.WriteString(vals[p.N])
		}
	}
	return sb.String()
}

func checkB06(c caseB06, x *Ctx) error {
	var b = c.build()
	if err := b.fill(); err != nil {
		return err
	}
	var n = b.nodes[c.N-1]
	var r = b.resp[n.id]
	var vals = c.values()
	var keep = append(nm.HostPathValues(nil), vals...)
	var u, err = r.URL(vals)
	x.judge()
	var bad = func(f string, a ...interface{}) error {
		return fmt.Errorf("the URL of %s with %v: %s", b.nodeName(n), vals, fmt.Sprintf(f, a...))
	}
	if fmt.Sprint(keep) != fmt.Sprint(vals) {
		return bad("the passed values have been changed")
	}
	if c.Miss != "" || c.Bad != "" && c.BadV != "" && !c.isWild(n) {
		x.class("missing or invalid value")
		x.nontrivial()
		if err == nil {
			return bad("%s has been made without the value %s%s", u, c.Miss, c.Bad)
		}
		if u != nil {
			return bad("there's an error, and the URL %s", u)
		}
		return nil
	}
	if c.Bad != "" {
		return nil
	}
	if err != nil {
		return bad("%v", err)
	}
	if u.Scheme != n.scheme() {
		return bad("%s has a wrong scheme", u)
	}
	var wantHost string
	if t := n.top(); t.host {
		wantHost = t.T.made(c.Vals)
	}
	if u.Host != wantHost {
		return bad("%s has a wrong host", u)
	}
	if u.RawQuery != "" || u.Fragment != "" || u.Opaque != "" || u.User != nil {
		return bad("%s has more than a scheme, a host and a path", u)
	}
	var path = u.EscapedPath()
	var want []string
	for _, e := range n.chain()[1:] {
		want = append(want, url.PathEscape(e.T.made(c.Vals)))
	}
	var wantPath = "/" + strings.Join(want, "/")
	if n.TS && !n.host {
		wantPath += "/"
	}
	if n.host && path == "" {
		path = "/"
	}
	if n.host && len(strings.Trim(path, "/")) == 0 {
		path = "/"
	}
	if !samePath(path, wantPath) {
		return bad("%s has a wrong path, must be %s", u, wantPath)
	}
	if wantHost != "" && !okHost(wantHost) {
		return nil
	}
	if p, err := url.Parse(u.String()); err != nil || p.EscapedPath() != u.EscapedPath() || p.Host != u.Host || p.Path != u.Path {
		return bad("%s can't be parsed back: %v", u, err)
	}

	// The way back.
	for _, s := range strings.Split(path, "/") {
		if s == "." || s == ".." {
			return nil
		}
	}
	if strings.Contains(path, "//") {
		return nil
	}
	var q = Req{Method: "GET", Host: u.Host, TLS: n.Sec, Target: path}
	if q.Host == "" {
		q.Host = "nowhere.net"
	}
	if n.host && n.C.Sub && len(path) > 1 {
		return nil
	}
	var e = expect(c.Site, q)
	if e.Unspec != "" || e.N != n {
		x.class("other responder")
		return nil
	}
	x.class("round trip")
	if len(c.Vals) > 0 {
		x.nontrivial()
	}
	rec, err := send(b.ro, q)
	if err != nil {
		return err
	}
	x.judge()
	if len(rec.obs) != 1 || rec.obs[0].Node != n.id {
		return bad("%s isn't routed to it: status %d %s", u, rec.code, obsString(rec.obs))
	}
	var wantVals = map[string]string{}
	for k, v := range c.Vals {
		if v != "" {
			wantVals[k] = v
		}
	}
	if !sameMap(rec.obs[0].Vals, wantVals) {
		return bad("%s is routed with the values %v", u, rec.obs[0].Vals)
	}
	return nil
}

// isWild says whether the replaced value is a wildcard's, and so any is valid.
func (c *caseB06) isWild(n *Node) bool {
	for _, e := range n.chain() {
		for _, p := range e.T.Parts {
			if p.N == c.Bad && p.K == "r" && !inLang(p.P, c.BadV) {
				return false
			}
		}
	}
	return true
}

func init() {
	register("B05", opts{
		quick: 160000, thorough: 1000000,
		rule:   "the tree has more than two responders (1-6 lookups with templates or names, from the router and from responders above, some with a wrong scheme, trailing slash or name; up to 6 calls through templates compared with the same calls made directly)",
		assume: []string{"the router's getters aren't used at responders that have been created implicitly and never configured"},
	}, genB05, checkB05)
	register("B06", opts{
		quick: 400000, thorough: 4000000,
		rule:   "a value is missing or invalid, or the URL has values and is routed back to the responder",
		assume: []string{"values . and .. of wildcards aren't used"},
	}, genB06, checkB06)
}
