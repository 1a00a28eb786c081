package main

// Building routers from trees, sending requests, and recording what happens.

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"sort"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

// responder is what hosts and resources have in common.
type responder interface {
	http.Handler
	Name() string
	Template() *nm.Template
	URL(nm.HostPathValues) (*url.URL, error)
	Router() *nm.Router
	IsSubtreeHandler() bool
	IsSecure() bool
	RedirectsInsecureRequest() bool
	HasTrailingSlash() bool
	IsStrictOnTrailingSlash() bool
	IsLenientOnTrailingSlash() bool
	IsLenientOnUncleanPath() bool
	HandlesThePathAsIs() bool
	Resource(string) *nm.Resource
	ResourceUsingConfig(string, nm.Config) *nm.Resource
	RegisterResource(*nm.Resource)
	RegisterResourceUnder(string, *nm.Resource)
	RegisteredResource(string) *nm.Resource
	ChildResourceNamed(string) *nm.Resource
	ChildResources() []*nm.Resource
	HasChildResource(*nm.Resource) bool
	HasAnyChildResources() bool
	SetSharedData(interface{})
	SharedData() interface{}
	SetConfiguration(nm.Config)
	Configuration() nm.Config
	SetImplementation(nm.Impl)
	Implementation() nm.Impl
	SetHandlerFor(string, nm.Handler)
	HandlerOf(string) nm.Handler
	WrapRequestPasser(...nm.Middleware)
	WrapRequestHandler(...nm.Middleware)
	WrapHandlerOf(string, ...nm.Middleware)
	SetPermanentRedirectCode(int)
	PermanentRedirectCode() int
	SetRedirectHandler(nm.RedirectHandler)
	RedirectHandler() nm.RedirectHandler
	WrapRedirectHandler(...func(nm.RedirectHandler) nm.RedirectHandler)
	RedirectRequestTo(string, int)
	RedirectAnyRequestTo(string, int)
	SetSharedDataAt(string, interface{})
	SharedDataAt(string) interface{}
	SetConfigurationAt(string, nm.Config)
	ConfigurationAt(string) nm.Config
	SetImplementationAt(string, nm.Impl)
	ImplementationAt(string) nm.Impl
	SetPathHandlerFor(string, string, nm.Handler)
	PathHandlerOf(string, string) nm.Handler
	WrapRequestPasserAt(string, ...nm.Middleware)
	WrapRequestHandlerAt(string, ...nm.Middleware)
	WrapPathHandlerOf(string, string, ...nm.Middleware)
	SetPermanentRedirectCodeAt(string, int)
	PermanentRedirectCodeAt(string) int
	SetRedirectHandlerAt(string, nm.RedirectHandler)
	RedirectHandlerAt(string) nm.RedirectHandler
	WrapRedirectHandlerAt(string, ...func(nm.RedirectHandler) nm.RedirectHandler)
	RedirectRequestAt(string, string, int)
	RedirectAnyRequestAt(string, string, int)
	SetSharedDataForSubtree(interface{})
	SetConfigurationForSubtree(nm.Config)
	WrapSubtreeRequestPassers(...nm.Middleware)
	WrapSubtreeRequestHandlers(...nm.Middleware)
	WrapSubtreeHandlersOf(string, ...nm.Middleware)
	AllowedHTTPMethods() []string
}

var (
	_ responder = (*nm.Host)(nil)
	_ responder = (*nm.Resource)(nil)
)

// Obs is what a handler has seen.
type Obs struct {
	Node   int
	Kind   string // "method", "na", "redirect"
	Method string
	Vals   map[string]string
	NVals  int
	Rem    string
	Host   interface{} // *nm.Host
	Res    interface{} // *nm.Resource
	Shared interface{}
	URL    string // of a redirect
	Code   int
}

// Rec is the http.ResponseWriter that records the response.
type Rec struct {
	hdr    http.Header
	code   int
	nCode  int // the number of explicit and implicit status codes
	body   bytes.Buffer
	obs    []Obs
	trace  []string
	late   bool // headers changed after they have been sent
	panicV interface{}
	aux    map[string]interface{}

	// Of traced requests.
	idx   int
	depth int
	outer map[*nm.Args]bool // the arguments of the requests it's nested in
	evs   []*Ev
	args  *nm.Args
	inner []*Rec
	impl  nm.Impl
}

func newRec() *Rec { return &Rec{hdr: http.Header{}} }

func (r *Rec) Header() http.Header { return r.hdr }

func (r *Rec) WriteHeader(code int) {
	r.nCode++
	if r.code == 0 {
		r.code = code
	}
}

func (r *Rec) Write(b []byte) (int, error) {
	if r.code == 0 {
		r.WriteHeader(http.StatusOK)
	}
	return r.body.Write(b)
}

func (r *Rec) ev(s string) { r.trace = append(r.trace, s) }

// makeRequest parses the request as a server does.
func makeRequest(q Req) (*http.Request, error) {
	var target, version = q.Target, "HTTP/1.1"
	if q.V10 {
		version = "HTTP/1.0"
	}
	switch {
	case q.Abs == 0 || q.Abs == 3 || q.Method == "CONNECT" || q.Host == "":
	case q.Abs == 2 || q.TLS:
		target = "https://" + q.Host + target
	default:
		target = "http://" + q.Host + target
	}
	var raw = q.Method + " " + target + " " + version + "\r\nHost: " + q.Host + "\r\n"
	for _, h := range q.Hdr {
		raw += h + "\r\n"
	}
	raw += "\r\n"
	var r, err = http.ReadRequest(bufio.NewReaderSize(strings.NewReader(raw), 256))
	if err != nil {
		return nil, err
	}
	if q.TLS {
		r.TLS = &tls.ConnectionState{}
	}
	if q.Raw != "" {
		r.URL.RawPath = q.Raw
	}
	if q.End {
		var ctx, cancel = context.WithCancel(context.Background())
		cancel()
		r = r.WithContext(ctx)
	}
	if q.Abs == 3 && q.Method != "CONNECT" {
		// Not by a server: the host is only in the URL.
		r.URL.Host, r.Host = r.Host, ""
	}
	return r, nil
}

// rest describes what's not to matter.
func (q Req) rest() string {
	var s string
	if q.Abs == 3 {
		s += ", host in the URL"
	} else if q.Abs > 0 {
		s += ", absolute-form"
	}
	if q.V10 {
		s += ", HTTP/1.0"
	}
	if q.End {
		s += ", cancelled context"
	}
	if q.Raw != "" {
		s += fmt.Sprintf(", RawPath %q", q.Raw)
	}
	if len(q.Hdr) > 0 {
		s += fmt.Sprintf(", headers %q", q.Hdr)
	}
	return s
}

// send serves the request with the handler and records the response.
func send(h http.Handler, q Req) (*Rec, error) {
	var r, err = makeRequest(q)
	if err != nil {
		return nil, fmt.Errorf("harness: request %+v: %v", q, err)
	}
	var rec = newRec()
	h.ServeHTTP(rec, r)
	return rec, nil
}

// Built is a router made from a site.
type Built struct {
	site  *Site
	ro    *nm.Router
	resp  map[int]responder
	ids   map[interface{}]int
	names []string
	nodes []*Node

	// What calls that had to fail were given.
	failed []given

	// The responders that have been seen in the tree, or given to it.
	seen map[responder]bool
}

func (b *Built) observe(id int, kind string, w http.ResponseWriter, r *http.Request, a *nm.Args) *Obs {
	var rec, _ = w.(*Rec)
	var o = Obs{Node: id, Kind: kind, Method: r.Method, Vals: map[string]string{}}
	var hpvs = a.HostPathValues()
	o.NVals = len(hpvs)
	for _, n := range b.names {
		if v := hpvs.Get(n); v != "" {
			o.Vals[n] = v
		}
	}
	o.Rem = a.RemainingPath()
	if h := a.Host(); h != nil {
		o.Host = h
	}
	if cr := a.CurrentResource(); cr != nil {
		o.Res = cr
	}
	o.Shared = a.ResponderSharedData()
	if rec != nil {
		rec.obs = append(rec.obs, o)
		return &rec.obs[len(rec.obs)-1]
	}
	return &o
}

func (b *Built) handler(id int, kind string) nm.Handler {
	return func(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
		b.observe(id, kind, w, r, a)
		if kind == "na" {
			w.WriteHeader(http.StatusMethodNotAllowed)
		} else {
			w.WriteHeader(http.StatusOK)
		}
		io.WriteString(w, "ok")
		return true
	}
}

// methodHandler answers only for the method it's been set for.
func (b *Built) methodHandler(id int, method string) nm.Handler {
	return func(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
		var o = b.observe(id, "method", w, r, a)
		o.Method = method
		w.WriteHeader(http.StatusOK)
		io.WriteString(w, "ok")
		return true
	}
}

// declining does nothing and returns false.
func (b *Built) declining(id int, method string) nm.Handler {
	return func(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
		b.observe(id, "declined", w, r, a).Method = method
		return false
	}
}

func (b *Built) redirectHandler(id int) nm.RedirectHandler {
	return func(w http.ResponseWriter, r *http.Request, u string, code int, a *nm.Args) bool {
		var o = b.observe(id, "redirect", w, r, a)
		o.URL, o.Code = u, code
		http.Redirect(w, r, u, code)
		return true
	}
}

func (n *Node) config() nm.Config {
	return nm.Config{
		SubtreeHandler:           n.C.Sub,
		RedirectsInsecureRequest: n.C.RedirIns,
		StrictOnTrailingSlash:    n.C.Strict,
		LenientOnTrailingSlash:   n.C.LenTS,
		LenientOnUncleanPath:     n.C.LenUnc,
		HandlesThePathAsIs:       n.C.AsIs,
	}
}

func (n *Node) scheme() string {
	if n.Sec {
		return "https"
	}
	return "http"
}

func (n *Node) slash() string {
	if n.TS {
		return "/"
	}
	return ""
}

// hostURL is the URL template of a host.
func (n *Node) hostURL() string { return n.scheme() + "://" + n.T.str() + n.slash() }

// relURL is the URL template of a resource relative to its parent.
func (n *Node) relURL() string {
	if n.root {
		return n.scheme() + ":///"
	}
	return n.scheme() + ":///" + n.T.pathStr() + n.slash()
}

// path is the path template of the resource without a trailing slash.
func (n *Node) path() string {
	var sb strings.Builder
	for _, c := range n.chain()[1:] {
		sb.WriteString("/" + c.T.pathStr())
	}
	return sb.String()
}

// hostPart is the host template of the node, or an empty string.
func (n *Node) hostPart() string {
	if t := n.top(); t.host {
		return t.T.str()
	}
	return ""
}

// fullURL is the URL template of the node from the router's point of view.
func (n *Node) fullURL() string {
	if n.host {
		return n.hostURL()
	}
	if n.root {
		return n.relURL()
	}
	return n.scheme() + "://" + n.hostPart() + n.path() + n.slash()
}

func (b *Built) add(n *Node, r responder) {
	b.resp[n.id] = r
	b.ids[r] = n.id
	for _, m := range n.M {
		if n.F {
			r.SetHandlerFor(m, b.declining(n.id, m))
		} else {
			r.SetHandlerFor(m, b.methodHandler(n.id, m))
		}
	}
	b.addRest(n, r)
}

func (b *Built) addRest(n *Node, r responder) {
	if n.NA {
		r.SetHandlerFor("!", b.handler(n.id, "na"))
	}
	if n.Red != "" {
		if n.RedAny {
			r.RedirectAnyRequestTo(n.Red, n.RedCode)
		} else {
			r.RedirectRequestTo(n.Red, n.RedCode)
		}
	}
	if n.PRC > 0 {
		r.SetPermanentRedirectCode(n.PRC)
	}
	if n.RH {
		r.SetRedirectHandler(b.redirectHandler(n.id))
	}
	if n.SD != "" {
		r.SetSharedData(n.SD)
	}
}

// tops returns the hosts and the root.
func (s *Site) tops() []*Node {
	var ts = append([]*Node(nil), s.Hosts...)
	if s.Root != nil {
		ts = append(ts, s.Root)
	}
	return ts
}

func newBuilt(s *Site) *Built {
	var b = &Built{site: s, ro: nm.NewRouter(), resp: map[int]responder{}, ids: map[interface{}]int{}}
	b.nodes = s.index()
	b.names = s.names()
	return b
}

// build makes a router from the site in the site's mode.
func build(s *Site) *Built {
	var b = newBuilt(s)
	for _, t := range s.tops() {
		b.buildTop(t, s.Mode)
	}
	return b
}

func newResp(n *Node, url string) responder {
	if n.host {
		return nm.NewDormantHostUsingConfig(url, n.config())
	}
	return nm.NewDormantResourceUsingConfig(url, n.config())
}

func (b *Built) registerTop(n *Node, r responder) {
	if n.host {
		b.ro.RegisterHost(r.(*nm.Host))
	} else {
		b.ro.RegisterResource(r.(*nm.Resource))
	}
}

func preorder(n *Node, f func(*Node)) {
	f(n)
	for _, k := range n.Kids {
		preorder(k, f)
	}
}

func postorder(n *Node, f func(*Node)) {
	for _, k := range n.Kids {
		postorder(k, f)
	}
	f(n)
}

// buildTop builds a host or the root with its resources. The modes differ in
// the methods used and in their order, and are all to give the same tree.
func (b *Built) buildTop(top *Node, mode int) {
	switch mode {
	case 0: // from the router down, relative to the parent
		preorder(top, func(n *Node) {
			var r responder
			switch {
			case n.host:
				r = b.ro.HostUsingConfig(n.hostURL(), n.config())
			case n.root:
				r = b.ro.ResourceUsingConfig(n.relURL(), n.config())
			default:
				r = b.resp[n.parent.id].ResourceUsingConfig(n.relURL(), n.config())
			}
			b.add(n, r)
		})
	case 1: // created one by one, registered from the top
		preorder(top, func(n *Node) {
			var url = n.relURL()
			if n.host {
				url = n.hostURL()
			}
			var r = newResp(n, url)
			if n.parent == nil {
				b.registerTop(n, r)
			} else {
				b.resp[n.parent.id].RegisterResource(r.(*nm.Resource))
			}
			b.add(n, r)
		})
	case 2: // created one by one, registered from the bottom
		postorder(top, func(n *Node) {
			var url = n.relURL()
			if n.host {
				url = n.hostURL()
			}
			var r = newResp(n, url)
			b.add(n, r)
			for _, k := range n.Kids {
				r.RegisterResource(b.resp[k.id].(*nm.Resource))
			}
		})
		b.registerTop(top, b.resp[top.id])
	case 3: // with the URLs, from the router
		preorder(top, func(n *Node) {
			if n.host {
				b.add(n, b.ro.HostUsingConfig(n.fullURL(), n.config()))
			} else {
				b.add(n, b.ro.ResourceUsingConfig(n.fullURL(), n.config()))
			}
		})
	case 4: // with the URLs, the deepest first
		postorder(top, func(n *Node) {
			if n.host {
				b.add(n, b.ro.HostUsingConfig(n.fullURL(), n.config()))
			} else {
				b.add(n, b.ro.ResourceUsingConfig(n.fullURL(), n.config()))
			}
		})
	case 5: // created with the URL and registered with the router
		preorder(top, func(n *Node) {
			var r = newResp(n, n.fullURL())
			b.add(n, r)
			b.registerTop(n, r)
		})
	case 6: // registered under a prefix
		preorder(top, func(n *Node) {
			var u = n.relURL()
			if n.host {
				u = n.hostURL()
			}
			var r = newResp(n, u)
			b.add(n, r)
			if n.parent == nil {
				b.registerTop(n, r)
				return
			}
			var res = r.(*nm.Resource)
			switch {
			case n.id%2 == 0 && n.parent.parent != nil && n.top().host:
				b.resp[top.id].RegisterResourceUnder(n.parent.path(), res)
			case n.hostPart() != "":
				b.ro.RegisterResourceUnder(n.scheme()+"://"+n.hostPart()+n.parent.path(), res)
			case n.parent.path() != "":
				b.ro.RegisterResourceUnder(n.scheme()+"://"+n.parent.path(), res)
			default:
				b.ro.RegisterResource(res)
			}
		})
	case 7: // with the methods that take a URL or a path
		preorder(top, func(n *Node) {
			var u, via = n.fullURL(), n.id%3 == 0 && n.parent != nil && n.parent.parent != nil
			var r responder
			if via {
				var p = b.resp[n.parent.id]
				u = n.relURL()
				p.SetConfigurationAt(u, n.config())
				for _, m := range n.M {
					p.SetPathHandlerFor(m, u, b.methodHandler(n.id, m))
				}
				r = p.RegisteredResource(u)
			} else {
				b.ro.SetSharedDataAt(u, nil)
				b.ro.SetConfigurationAt(u, n.config())
				for _, m := range n.M {
					b.ro.SetURLHandlerFor(m, u, b.methodHandler(n.id, m))
				}
				if n.host {
					r = b.ro.RegisteredHost(u)
				} else {
					r = b.ro.RegisteredResource(u)
				}
			}
			b.resp[n.id] = r
			b.ids[r] = n.id
			b.addRest(n, r)
		})
	}
}

// ---------------------------------------------------------------------------
// Comparing the outcome with the expected one.

type cmpOpt struct {
	vals     bool // compare the values
	rem      bool
	location bool
	code     bool
	allow    bool
	self     bool // Host() and CurrentResource()
}

func unescSegs(p string) string {
	var ss = strings.Split(p, "/")
	for i, s := range ss {
		if d, err := url.PathUnescape(s); err == nil {
			ss[i] = url.PathEscape(d)
		}
	}
	return strings.Join(ss, "/")
}

// samePath compares two escaped paths segment by segment.
func samePath(a, b string) bool { return a == b || unescSegs(a) == unescSegs(b) }

// sameRem says whether the escaped paths are the same. net/url escapes an
// asterisk only when it isn't alone.
func sameRem(a, b string) bool {
	return a == b || strings.ReplaceAll(a, "*", "%2A") == strings.ReplaceAll(b, "*", "%2A")
}

func (b *Built) nodeName(n *Node) string {
	if n == nil {
		return "none"
	}
	return fmt.Sprintf("#%d %s", n.id, n.fullURL())
}

// compare returns an error when the response isn't the expected one.
func (b *Built) compare(q Req, e Out, rec *Rec, o cmpOpt) error {
	var desc = func(f string, a ...interface{}) error {
		return fmt.Errorf("%s %s (host %s, tls %v%s): %s; expected %s by %s; got status %d, location %q, handlers %s",
			q.Method, q.Target, q.Host, q.TLS, q.rest(), fmt.Sprintf(f, a...), e.Kind, b.nodeName(e.N), rec.code, rec.hdr.Get("Location"), obsString(rec.obs))
	}
	if rec.nCode != 1 {
		return desc("%d status codes have been written", rec.nCode)
	}
	switch e.Kind {
	case "404":
		if rec.code != 404 || len(rec.obs) != 0 {
			return desc("must not be found")
		}
		return nil
	case "method", "na":
		if len(rec.obs) != 1 {
			return desc("%d handlers have been called", len(rec.obs))
		}
		var ob = rec.obs[0]
		if ob.Node != e.N.id || ob.Kind != e.Kind {
			return desc("wrong handler")
		}
		if e.Kind == "method" && ob.Method != e.Method {
			return desc("wrong method handler")
		}
		return b.compareObs(e, ob, o, desc)
	case "405", "options":
		var want = 405
		if e.Kind == "options" {
			want = 200
		}
		if rec.code != want || len(rec.obs) != 0 {
			return desc("wrong response")
		}
		if o.allow {
			if err := checkAllow(rec, e.N); err != nil {
				return desc("%v", err)
			}
		}
		return nil
	case "redirect", "redirector":
		if e.N.RH {
			if len(rec.obs) != 1 || rec.obs[0].Kind != "redirect" || rec.obs[0].Node != e.N.id {
				return desc("the redirect handler of the responder must be called")
			}
			if o.code && rec.obs[0].Code != e.Code {
				return desc("redirect handler got the code %d, not %d", rec.obs[0].Code, e.Code)
			}
			if err := b.compareObs(e, rec.obs[0], o, desc); err != nil {
				return err
			}
		} else if len(rec.obs) != 0 {
			return desc("no handler must be called")
		}
		if rec.code < 300 || rec.code > 399 {
			return desc("must be redirected")
		}
		if o.code && rec.code != e.Code {
			return desc("wrong redirect code, must be %d", e.Code)
		}
		if o.location {
			if err := checkLocation(q, e, rec.hdr.Get("Location")); err != nil {
				return desc("%v", err)
			}
		}
		return nil
	}
	return desc("harness: unknown kind")
}

func (b *Built) compareObs(e Out, ob Obs, o cmpOpt, desc func(string, ...interface{}) error) error {
	if o.vals {
		if err := cmpVals(e, ob); err != nil {
			return desc("%v", err)
		}
	}
	if o.rem && !sameRem(e.Rem, ob.Rem) {
		return desc("remaining path is %q, must be %q", ob.Rem, e.Rem)
	}
	if o.self {
		var r = b.resp[e.N.id]
		if h, ok := r.(*nm.Host); ok {
			if ob.Host != interface{}(h) || ob.Res != nil {
				return desc("wrong host or resource in args")
			}
		} else {
			if ob.Res != interface{}(r.(*nm.Resource)) {
				return desc("wrong resource in args")
			}
			if t := e.N.top(); t.host {
				if ob.Host != interface{}(b.resp[t.id].(*nm.Host)) {
					return desc("wrong host in args")
				}
			} else if ob.Host != nil {
				return desc("args has a host")
			}
		}
	}
	return nil
}

// cmpVals: at the end of the path the values are exactly those of the URL. A
// subtree handler has the values down to it.
func cmpVals(e Out, ob Obs) error {
	if e.Exact {
		var want = map[string]string{}
		for k, v := range e.Vals {
			if v != "" {
				want[k] = v
			}
		}
		if ob.NVals != len(e.Vals) || !sameMap(want, ob.Vals) {
			return fmt.Errorf("values are %v (%d), must be %v", ob.Vals, ob.NVals, e.Vals)
		}
		return nil
	}
	for k, v := range e.Vals {
		if ob.Vals[k] != v {
			return fmt.Errorf("values are %v, must have %s=%q", ob.Vals, k, v)
		}
	}
	return nil
}

func checkAllow(rec *Rec, n *Node) error {
	var got []string
	for _, h := range rec.hdr["Allow"] {
		for _, m := range strings.Split(h, ",") {
			got = append(got, strings.TrimSpace(m))
		}
	}
	sort.Strings(got)
	if strings.Join(got, ",") != strings.Join(n.allowed(), ",") {
		return fmt.Errorf("Allow has %v, must have %v", got, n.allowed())
	}
	return nil
}

func checkLocation(q Req, e Out, loc string) error {
	var u, err = url.Parse(loc)
	if err != nil {
		return fmt.Errorf("location %q can't be parsed: %v", loc, err)
	}
	if e.Kind == "redirector" {
		var want, err = url.Parse(joinRed(e.RedURL, e.Rem))
		if err != nil {
			return fmt.Errorf("harness: %v", err)
		}
		if u.Scheme != want.Scheme || u.Host != want.Host || !sameRem(u.EscapedPath(), want.EscapedPath()) {
			return fmt.Errorf("location must be %s", want)
		}
		return nil
	}
	if u.Scheme != e.Scheme && (q.Abs != 2 || e.Scheme == "https") {
		return fmt.Errorf("scheme must be %s", e.Scheme)
	}
	if u.Host != q.Host {
		return fmt.Errorf("host must be %s", q.Host)
	}
	if !sameRem(u.EscapedPath(), e.Path) {
		return fmt.Errorf("path must be %s", e.Path)
	}
	if u.RawQuery != e.Query {
		return fmt.Errorf("query must be %q", e.Query)
	}
	return nil
}

func obsString(obs []Obs) string {
	var ss []string
	for _, o := range obs {
		ss = append(ss, fmt.Sprintf("%s of #%d %v rem %q", o.Kind, o.Node, o.Vals, o.Rem))
	}
	return "[" + strings.Join(ss, "; ") + "]"
}
