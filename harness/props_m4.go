package main

// Implementations and tables of handlers (M04).

import (
	"fmt"
	"net/http"
	"sort"
	"strings"
	"sync/atomic"

	nm "github.com/shohruhadham/nanomux"
)

type implType struct {
	make    func(id string) nm.Impl
	methods []string // "!" is the not allowed one
}

var badCalls64 int64

func implBad(id string) { atomic.AddInt64(&badCalls64, 1) }

func implBody(w http.ResponseWriter, r *http.Request, a *nm.Args, id, method string) bool {
	var rec, _ = writers(w)
	rec.ev("=" + method + "@" + id)
	if method == "!" {
		w.WriteHeader(http.StatusMethodNotAllowed)
	} else {
		w.WriteHeader(http.StatusOK)
	}
	rec.impl = a.ResponderImpl()
	return method != "never"
}

var davMethods = []string{"ACL", "BIND", "CHECKIN", "CHECKOUT", "COPY", "LABEL", "LINK", "MERGE", "MKCOL", "MOVE", "NOTIFY", "ORDERPATCH", "PROPFIND", "PURGE", "REBIND", "REPORT", "SEARCH", "UNLINK", "UNLOCK"}

var otherMethods = []string{"GET", "POST", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS", "CONNECT", "TRACE", "CUSTOM", "LOCK", "X", "Y", "SHARE", "GETMOVED"}

var oddMethods = []string{"NOPE", "get", "Post", "NOTALLOWEDMETHOD", "ALLOWED", "A", "ZZZ", "HANDLEGET", "OPTION", "M-SEARCH", "METHOD", "NOTALLOWED", "NOT", "NOTALLOWEDMETHODS", "M1"}

var allMethods = append(append(append([]string(nil), otherMethods...), davMethods...), oddMethods...)

// M04Op sets an implementation, sets a handler, or makes a new responder with
// the implementation.
type M04Op struct {
	K   string `json:"k"` // "impl", "set", "new"
	N   int    `json:"n"`
	Via int    `json:"via"`
	T   int    `json:"t"`
	M   string `json:"m,omitempty"`
	Tag string `json:"tag"`
}

type caseM04 struct {
	builtSite
	Ops  []M04Op
	Reqs []Req
}

func genM04(g *G) caseM04 {
	var so = fullOpt(g)
	so.maxNodes, so.hosts = 5, g.weighted(2, 2)
	so.pSub, so.pTS, so.pSec, so.pRed, so.pRedAny, so.pStrict = 0.1, 0.1, 0.1, 0, 0, 0
	var c = caseM04{builtSite: g.builtSite(so)}
	var all = c.Site.index()
	var few []*Node
	for k := g.rng(1, 2); k > 0; k-- {
		few = append(few, pick(g, all))
	}
	for k := g.rng(1, 5); k > 0; k-- {
		var n = pick(g, few)
		var o = M04Op{N: n.id, Via: g.via(n), T: g.intn(len(implTypes)), Tag: g.uniq("i")}
		if g.bit() {
			o.Via = -1
		}
		o.K = []string{"impl", "set", "new"}[g.weighted(5, 5, 2)]
		if o.K == "set" {
			switch g.weighted(1, 4, 2) {
			case 0:
				o.M = "!"
			case 1:
				o.M = g.methodList(otherMethods)
			case 2: // a lot of them
				var ms = append(append([]string(nil), davMethods...), otherMethods...)
				var sb []string
				for _, i := range g.shuffled(len(ms))[:g.rng(10, 26)] {
					sb = append(sb, ms[i])
				}
				o.M = strings.Join(sb, pick(g, []string{" ", ", ", ","}))
			}
		}
		c.Ops = append(c.Ops, o)
	}
	for k := g.rng(2, 8); k > 0; k-- {
		var n = pick(g, few)
		var q = g.requestTo(c.Site, n, ROpt{pExact: 0.95})
		q.TLS = n.Sec || g.bit()
		q.Method = pick(g, allMethods)
		if o := pick(g, c.Ops); g.prob(0.6) {
			var ms = splitMethods(o.M)
			if o.K == "impl" {
				ms = implTypes[o.T].methods
			}
			if len(ms) > 0 {
				q.Method = strings.ReplaceAll(pick(g, ms), "!", "NOPE")
			}
		}
		c.Reqs = append(c.Reqs, q)
	}
	return c
}

// mtable is the reference: what the handlers leave.
type mtable map[string]string

func (t mtable) impl(it implType, id string) {
	for k := range t {
		delete(t, k)
	}
	for _, m := range it.methods {
		t[m] = "=" + m + "@" + id
	}
	t.options()
}

func (t mtable) options() {
	for m := range t {
		if m != "!" && t["OPTIONS"] == "" {
			t["OPTIONS"] = "auto"
			return
		}
	}
}

func (t mtable) methods() []string {
	var ms []string
	for m := range t {
		if m != "!" {
			ms = append(ms, m)
		}
	}
	sort.Strings(ms)
	return ms
}

// judge compares the response to the method's request with the table.
func (t mtable) judge(method string, rec *Rec) error {
	var h = t[method]
	if len(t.methods()) == 0 {
		if rec.code != http.StatusNotFound || len(rec.trace) > 0 {
			return fmt.Errorf("must be not found, status %d %v", rec.code, rec.trace)
		}
		return nil
	}
	var code = http.StatusOK
	if h == "" {
		h = t["!"]
		code = http.StatusMethodNotAllowed
		if h != "" && !strings.HasPrefix(h, "=!@") {
			code = http.StatusOK // the handler's own
		}
	}
	if h == "auto" || h == "" {
		if rec.code != code || len(rec.trace) > 0 {
			return fmt.Errorf("status must be %d, is %d %v", code, rec.code, rec.trace)
		}
		return t.judgeAllow(rec)
	}
	if rec.code != code || rec.nCode != 1 || len(rec.trace) != 1 || rec.trace[0] != h {
		return fmt.Errorf("must be handled by %s (status %d), is by %v (status %d)", h, code, rec.trace, rec.code)
	}
	return nil
}

func (t mtable) judgeAllow(rec *Rec) error {
	var got []string
	for _, h := range rec.hdr["Allow"] {
		got = append(got, splitMethods(h)...)
	}
	sort.Strings(got)
	if strings.Join(got, " ") != strings.Join(t.methods(), " ") {
		return fmt.Errorf("Allow has %v, must have %v", got, t.methods())
	}
	return nil
}

// judgeResp compares what the responder tells with the table.
func (t mtable) judgeResp(r responder, impl nm.Impl, some []string) error {
	var ms = append([]string(nil), r.AllowedHTTPMethods()...)
	sort.Strings(ms)
	if strings.Join(ms, " ") != strings.Join(t.methods(), " ") {
		return fmt.Errorf("AllowedHTTPMethods are %v, must be %v", ms, t.methods())
	}
	if r.Implementation() != impl {
		return fmt.Errorf("Implementation is %v, must be %v", r.Implementation(), impl)
	}
	for _, m := range some {
		var h = r.HandlerOf(m)
		if (h != nil) != (t[strings.ToUpper(m)] != "") {
			return fmt.Errorf("HandlerOf(%q) is nil: %v", m, h == nil)
		}
		if h == nil {
			continue
		}
		var rec = newRec()
		var req, err = makeRequest(Req{Method: m, Host: "x", Target: "/"})
		if err != nil {
			return err
		}
		if !h(rec, req, &nm.Args{}) {
			return fmt.Errorf("HandlerOf(%q) returns false", m)
		}
		if err := t.judge(strings.ToUpper(m), rec); err != nil {
			return fmt.Errorf("HandlerOf(%q): %v", m, err)
		}
	}
	return nil
}

// judgeNew makes new responders with the implementation.
func (o M04Op) judgeNew() error {
	var it = implTypes[o.T]
	var t = mtable{}
	t.impl(it, o.Tag)
	var impl = it.make(o.Tag)
	var ro = nm.NewRouter()
	var r1 responder = nm.NewHost("http://one.example", impl)
	var r2 responder = nm.NewHostUsingConfig("http://two.example", impl, nm.Config{SubtreeHandler: true})
	var r3 responder = nm.NewResource("http://three.example/x/y", impl)
	var r4 responder = nm.NewResourceUsingConfig("/z/y", impl, nm.Config{SubtreeHandler: true})
	ro.RegisterHost(r1.(*nm.Host))
	ro.RegisterHost(r2.(*nm.Host))
	ro.RegisterResource(r3.(*nm.Resource))
	ro.RegisterResource(r4.(*nm.Resource))
	var some = splitMethods(strings.ReplaceAll(strings.Join(it.methods, " "), "!", ""))
	if len(some) > 3 {
		some = some[:3]
	}
	some = append(some, oddMethods[o.T%len(oddMethods)], otherMethods[o.T%len(otherMethods)], davMethods[o.T%len(davMethods)])
	for i, r := range []responder{r1, r2, r3, r4} {
		if err := t.judgeResp(r, impl, nil); err != nil {
			return fmt.Errorf("new responder %d: %v", i+1, err)
		}
		for _, m := range some {
			var q = Req{Method: m}
			q.Host = []string{"one.example", "two.example", "three.example", "another.example"}[i]
			q.Target = []string{"/", "/a/b", "/x/y", "/z/y/w"}[i]
			var rec, err = send(ro, q)
			if err != nil {
				return err
			}
			if err := t.judge(m, rec); err != nil {
				return fmt.Errorf("new responder %d, %s: %v", i+1, m, err)
			}
		}
	}
	return nil
}

func checkM04(c caseM04, x *Ctx) error {
	c.Site = c.Site.clone()
	var b = c.build()
	if err := b.fill(); err != nil {
		return err
	}
	var tables = map[int]mtable{}
	var impls = map[int]nm.Impl{}
	var tagged = func(tag string) nm.Handler {
		return func(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
			recOf(w).ev("=" + tag)
			w.WriteHeader(http.StatusOK)
			return true
		}
	}
	for _, n := range b.nodes {
		var t = mtable{}
		for _, m := range n.M {
			t[m] = fmt.Sprintf("=#%d %s", n.id, m)
			b.resp[n.id].SetHandlerFor(m, tagged(t[m][1:]))
		}
		t.options()
		if n.NA {
			t["!"] = fmt.Sprintf("=#%d !", n.id)
			b.resp[n.id].SetHandlerFor("!", tagged(t["!"][1:]))
		}
		tables[n.id] = t
	}
	var bad0 = atomic.LoadInt64(&badCalls64)
	var story []string
	for _, o := range c.Ops {
		var n = b.nodes[o.N-1]
		var r = b.resp[o.N]
		var t = tables[o.N]
		var via = o.Via
		if !c.explicit(o.N) {
			via = -1
		}
		var u string
		var p responder
		if via > 0 {
			p = b.resp[via]
			u = n.address(b.nodes[via-1], 0)
		} else {
			u = n.address(nil, 0)
		}
		x.class("op " + o.K)
		x.judge()
		switch o.K {
		case "impl":
			var it = implTypes[o.T]
			var impl = it.make(o.Tag)
			switch {
			case via < 0:
				r.SetImplementation(impl)
			case p != nil:
				p.SetImplementationAt(u, impl)
			default:
				b.ro.SetImplementationAt(u, impl)
			}
			impls[o.N] = impl
			t.impl(it, o.Tag)
			story = append(story, fmt.Sprintf("#%d implementation %T %v", o.N, impl, it.methods))
		case "set":
			switch {
			case via < 0:
				r.SetHandlerFor(o.M, tagged(o.Tag))
			case p != nil:
				p.SetPathHandlerFor(o.M, u, tagged(o.Tag))
			default:
				b.ro.SetURLHandlerFor(o.M, u, tagged(o.Tag))
			}
			for _, m := range splitMethods(o.M) {
				t[m] = "=" + o.Tag
			}
			t.options()
			story = append(story, fmt.Sprintf("#%d handler %s for %q", o.N, o.Tag, o.M))
		case "new":
			if err := o.judgeNew(); err != nil {
				return fmt.Errorf("%T: %v", implTypes[o.T].make(""), err)
			}
			continue
		}
		var some = []string{otherMethods[o.T%len(otherMethods)], davMethods[o.T%len(davMethods)], "GET", "OPTIONS", "NOPE"}
		if err := t.judgeResp(r, impls[o.N], some); err != nil {
			return fmt.Errorf("after [%s]: %s: %v", strings.Join(story, "; "), b.nodeName(n), err)
		}
	}
	for _, n := range b.nodes {
		n.M, n.NA = nil, tables[n.id]["!"] != ""
		for m, h := range tables[n.id] {
			if m != "!" && h != "auto" {
				n.M = append(n.M, m)
			}
		}
		sort.Strings(n.M)
	}
	for _, q := range c.Reqs {
		var e = expect(c.Site, q)
		if e.Unspec != "" || e.N == nil {
			continue
		}
		if k := e.Kind; k != "method" && k != "na" && k != "405" && k != "options" && k != "404" || k == "404" && e.N.canHandle() {
			continue
		}
		var rec, err = send(b.ro, q)
		if err != nil {
			return err
		}
		x.judge()
		var t = tables[e.N.id]
		if t[q.Method] != "" {
			x.nontrivial()
			x.class("has the method")
		} else {
			x.class("doesn't have the method")
		}
		if err := t.judge(q.Method, rec); err != nil {
			return fmt.Errorf("after [%s]: %+v of %s: %v", strings.Join(story, "; "), q, b.nodeName(e.N), err)
		}
		if len(rec.trace) == 1 && strings.Contains(rec.trace[0], "@") && rec.impl != impls[e.N.id] {
			return fmt.Errorf("after [%s]: %+v: ResponderImpl is %v", strings.Join(story, "; "), q, rec.impl)
		}
	}
	if atomic.LoadInt64(&badCalls64) != bad0 {
		return fmt.Errorf("a method with another signature has been called")
	}
	return nil
}

func init() {
	register("M04", opts{
		quick: 240000, thorough: 2500000,
		rule: "a request with a method that the table of handlers has at that point is judged (types combined from some of 60 methods with and without the prefix and the signature, as values and pointers; 1-5 implementations and handlers set)",
	}, genM04, checkM04)
}
