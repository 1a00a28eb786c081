package main

// Routers with middlewares, and the reference of what they do with a request:
// which middlewares and handlers are called, in which order and with what.

import (
	"context"
	"crypto/tls"
	"fmt"
	"net/http"
	"runtime"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

// Mid describes a middleware.
type Mid struct {
	Tag  string `json:"tag"`
	Conv bool   `json:"conv,omitempty"` // it's converted from a net/http one

	// What it does instead of calling what it wraps, or after it:
	//   drop       responds and returns true
	//   dropfalse  returns false
	//   panic      panics
	//   swallow    calls what it wraps and returns true
	Act string `json:"act,omitempty"`
	On  int    `json:"on,omitempty"` // the requests (bits) it does so for, 0: for all

	// What it passes on is changed.
	Method string `json:"method,omitempty"`
	TLS    bool   `json:"tls,omitempty"`
	Hdr    bool   `json:"hdr,omitempty"`
	Ctx    bool   `json:"ctx,omitempty"`
	W      bool   `json:"w,omitempty"`
	Cancel bool   `json:"cancel,omitempty"` // the context, which is not to matter

	KV   []KV `json:"kv,omitempty"`
	Nest int  `json:"nest,omitempty"` // serves the request of that number (from 1) first

	NestCtx bool `json:"nestctx,omitempty"` // with the context of its own request
}

// KV sets or gets an argument.
type KV struct {
	K int `json:"k"`
	V int `json:"v,omitempty"` // 0 gets
}

// Hand describes a handler.
type Hand struct {
	Tag  string `json:"tag"`
	Kind string `json:"kind,omitempty"` // "", "Hr", "FnHr", "HrWithArgs", "FnHrWithArgs"
	Act  string `json:"act,omitempty"`  // "false", "falsehdr" (sets a header first), "panic"
	On   int    `json:"on,omitempty"`
	KV   []KV   `json:"kv,omitempty"`
	Nest int    `json:"nest,omitempty"`

	NestCtx bool `json:"nestctx,omitempty"`
}

// WOp is a call that sets or wraps something. N is 0 for the router.
//
//	P, H, M, R           wrap the passer, the request handler, the handlers of
//	                     methods, the redirect handler
//	subP, subH, subM     the same for the subtree, or for all of the router
//	set, rh, impl, data  set a handler, a redirect handler, an implementation,
//	                     shared data
//	subD, subC           set shared data and configuration in bulk
type WOp struct {
	K     string     `json:"k"`
	N     int        `json:"n"`
	Via   int        `json:"via"`
	Names int        `json:"names,omitempty"`
	M     string     `json:"m,omitempty"`
	Mids  []Mid      `json:"mids,omitempty"`
	H     Hand       `json:"h,omitempty"`
	S     string     `json:"s,omitempty"`
	C     *nm.Config `json:"c,omitempty"`
}

// --- The reference's state.

type hstate struct {
	h    *Hand
	auto bool   // the one that's made automatically
	impl string // what a method of an implementation leaves
	mids []Mid
}

type nstate struct {
	p, h, r []Mid
	m       map[string]*hstate
	na      *hstate
	rh      *Hand
	data    interface{}
	impl    nm.Impl
}

type wstate struct {
	ro []Mid
	n  map[int]*nstate
}

func copyMids(a, b []Mid) []Mid { return append(append([]Mid(nil), a...), b...) }

func splitMethods(s string) []string {
	return strings.FieldsFunc(strings.ToUpper(s), func(r rune) bool { return r == ' ' || r == ',' })
}

func newWstate(b *Built) *wstate {
	var s = &wstate{n: map[int]*nstate{}}
	for _, n := range b.nodes {
		var ns = &nstate{m: map[string]*hstate{}}
		s.n[n.id] = ns
		if n.SD != "" {
			ns.data = n.SD
		}
	}
	return s
}

func (ns *nstate) set(methods string, h Hand) {
	var ms = splitMethods(methods)
	if len(ms) == 1 && ms[0] == "!" {
		ns.na = &hstate{h: &h}
		return
	}
	for _, m := range ms {
		ns.m[m] = &hstate{h: &h}
	}
	if ns.m["OPTIONS"] == nil {
		ns.m["OPTIONS"] = &hstate{auto: true}
	}
}

// wrap wraps the handlers of the methods that exist.
func (ns *nstate) wrap(methods []string, mids []Mid) {
	if len(ns.m) == 0 && ns.na == nil {
		return
	}
	if len(methods) == 1 && methods[0] == "!" {
		if ns.na == nil {
			ns.na = &hstate{auto: true}
		}
		ns.na = &hstate{h: ns.na.h, auto: ns.na.auto, impl: ns.na.impl, mids: copyMids(ns.na.mids, mids)}
		return
	}
	if len(methods) == 1 && methods[0] == "*" {
		methods = nil
		for m := range ns.m {
			methods = append(methods, m)
		}
	}
	for _, m := range methods {
		if s := ns.m[m]; s != nil {
			ns.m[m] = &hstate{h: s.h, auto: s.auto, impl: s.impl, mids: copyMids(s.mids, mids)}
		}
	}
}

// sync makes the site's node agree with the state.
func (ns *nstate) sync(n *Node) {
	n.M = nil
	for m, s := range ns.m {
		if !(m == "OPTIONS" && s.auto) {
			n.M = append(n.M, m)
		}
	}
	sortedStrings(n.M)
	n.NA = ns.na != nil
	n.RH = ns.rh != nil
}

// --- The real things.

type wrapW struct {
	http.ResponseWriter
	tag string
}

// writers tells the recorder and what it's wrapped in.
func writers(w http.ResponseWriter) (*Rec, string) {
	var s string
	for {
		switch x := w.(type) {
		case *wrapW:
			s = x.tag + "." + s
			w = x.ResponseWriter
		case *Rec:
			return x, s
		default:
			return newRec(), "?"
		}
	}
}

type ctxMark struct{}

// Keys of several types, some of which look the same.
type (
	argKey  struct{ k int }
	argKey2 struct{ k int }
	argKeyI int
	argKeyS string
)

var argKeyPs [16]struct{ k int }

func keyOf(k int) interface{} {
	var v = k / 5
	switch k % 5 {
	case 0:
		return argKey{v}
	case 1:
		return argKeyI(v)
	case 2:
		return argKeyS(fmt.Sprint(v))
	case 3:
		return &argKeyPs[v%len(argKeyPs)]
	}
	return argKey2{v}
}

// ArgObs is what the arguments tell.
type ArgObs struct {
	Node   int // -1: not of this site
	Host   int // -1: not of this site
	Vals   map[string]string
	NVals  int
	Rem    string
	Shared interface{}
	Impl   nm.Impl
}

// Ev is an event.
type Ev struct {
	S string // what has happened
	R string // what the request is at that point
	G string // what's been got from the arguments
	A *ArgObs

	// Of the reference only.
	exact  bool // exactly these values
	noArgs bool // the arguments aren't judged
	anyOK  bool // the returned value isn't judged
}

func (b *Built) argObs(a *nm.Args) *ArgObs {
	var o = &ArgObs{Vals: map[string]string{}}
	var hpvs = a.HostPathValues()
	o.NVals = len(hpvs)
	for _, n := range b.names {
		if v := hpvs.Get(n); v != "" {
			o.Vals[n] = v
		}
	}
	if h := a.Host(); h != nil {
		o.Host = -1
		if id, ok := b.ids[h]; ok {
			o.Host = id
		}
	}
	if r := a.CurrentResource(); r != nil {
		o.Node = -1
		if id, ok := b.ids[r]; ok {
			o.Node = id
		}
	} else {
		o.Node = o.Host
	}
	o.Rem = a.RemainingPath()
	o.Shared = a.ResponderSharedData()
	o.Impl = a.ResponderImpl()
	return o
}

// event records an event. The middlewares and handlers that haven't been
// passed the arguments ask the request for them.
func (t *traced) event(s string, kv []KV, w http.ResponseWriter, r *http.Request, a *nm.Args, native bool) (*Rec, *nm.Args) {
	var rec, ws = writers(w)
	var e = &Ev{S: s}
	var tls = ""
	if r.TLS != nil {
		tls = " tls"
	}
	var marks, _ = r.Context().Value(ctxMark{}).(string)
	e.R = fmt.Sprintf("%s%s hdr%v ctx[%s] w[%s]", r.Method, tls, r.Header["X-Mark"], marks, ws)
	var from = nm.ArgsFrom(r)
	if from != nil && rec.outer[from] {
		e.R += " outer args"
		from = nil
	}
	if !native {
		a = from
	}
	switch {
	case from == nil:
		e.R += " no args"
	case rec.args == nil:
		rec.args = from
	}
	if a != nil {
		if rec.args == nil {
			rec.args = a
		}
		if a != rec.args || from != nil && from != rec.args {
			e.R += " other args"
		}
		e.A = t.b.argObs(a)
		var got []string
		for _, x := range kv {
			if x.V > 0 {
				a.Set(keyOf(x.K), x.V)
				got = append(got, "set")
			} else if x.V < 0 {
				a.Set(keyOf(x.K), nil)
				got = append(got, "set")
			} else {
				got = append(got, fmt.Sprint(a.Get(keyOf(x.K))))
			}
		}
		e.G = strings.Join(got, " ")
	}
	rec.evs = append(rec.evs, e)
	return rec, a
}

// traced is a built router whose middlewares and handlers record events.
type traced struct {
	b    *Built
	st   *wstate
	reqs []Req
	nest func(i int) // serves the nested request
	slow bool        // gives the other goroutines a chance
	pol  []int       // what's sent to another router in between
}

func onFor(on, idx int) bool { return on == 0 || on>>(idx&15)&1 == 1 }

type tracePanic struct{ tag string }

func (t *traced) pause() {
	if t.slow {
		runtime.Gosched()
	}
}

// changed is the request with the middleware's changes.
func (m *Mid) changed(w http.ResponseWriter, r *http.Request) (http.ResponseWriter, *http.Request) {
	if m.Ctx {
		var marks, _ = r.Context().Value(ctxMark{}).(string)
		r = r.WithContext(context.WithValue(r.Context(), ctxMark{}, marks+m.Tag+" "))
	}
	if m.Cancel {
		var ctx, cancel = context.WithCancel(r.Context())
		cancel()
		r = r.WithContext(ctx)
	}
	if m.Method != "" || m.TLS || m.Hdr {
		r = r.Clone(r.Context())
		if m.Method != "" {
			r.Method = m.Method
		}
		if m.TLS {
			r.TLS = &tls.ConnectionState{}
		}
		if m.Hdr {
			r.Header.Add("X-Mark", m.Tag)
		}
	}
	if m.W {
		w = &wrapW{w, m.Tag}
	}
	return w, r
}

func (t *traced) middleware(m Mid) nm.Middleware {
	if m.Conv {
		return nm.Mw(func(next http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				var rec, _ = t.event("+"+m.Tag, m.KV, w, r, nil, false)
				t.pause()
				if m.Nest > 0 {
					t.nested(rec, m.Nest, m.NestCtx, r)
				}
				if m.Act != "" && onFor(m.On, rec.idx) {
					switch m.Act {
					case "drop", "dropfalse":
						w.WriteHeader(http.StatusTeapot)
						return
					case "panic":
						panic(tracePanic{m.Tag})
					}
				}
				var w2, r2 = m.changed(w, r)
				next.ServeHTTP(w2, r2)
				t.pause()
				t.event("-"+m.Tag, m.KV, w, r, nil, false)
			})
		})
	}
	return func(next nm.Handler) nm.Handler {
		return func(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
			var rec, _ = t.event("+"+m.Tag, m.KV, w, r, a, true)
			t.pause()
			if m.Nest > 0 {
				t.nested(rec, m.Nest, m.NestCtx, r)
			}
			var act = m.Act
			if !onFor(m.On, rec.idx) {
				act = ""
			}
			switch act {
			case "drop":
				w.WriteHeader(http.StatusTeapot)
				return true
			case "dropfalse":
				return false
			case "panic":
				panic(tracePanic{m.Tag})
			}
			var w2, r2 = m.changed(w, r)
			var ok = next(w2, r2, a)
			t.pause()
			t.event(fmt.Sprintf("-%s %v", m.Tag, ok), m.KV, w, r, a, true)
			return ok || act == "swallow"
		}
	}
}

func (t *traced) redirectMiddleware(m Mid) func(nm.RedirectHandler) nm.RedirectHandler {
	return func(next nm.RedirectHandler) nm.RedirectHandler {
		return func(w http.ResponseWriter, r *http.Request, u string, code int, a *nm.Args) bool {
			var rec, _ = t.event("+"+m.Tag, m.KV, w, r, a, true)
			t.pause()
			if m.Nest > 0 {
				t.nested(rec, m.Nest, m.NestCtx, r)
			}
			var act = m.Act
			if !onFor(m.On, rec.idx) {
				act = ""
			}
			switch act {
			case "drop":
				w.WriteHeader(http.StatusTeapot)
				return true
			case "dropfalse":
				return false
			case "panic":
				panic(tracePanic{m.Tag})
			}
			var ok = next(w, r, u, code, a)
			t.event(fmt.Sprintf("-%s %v", m.Tag, ok), m.KV, w, r, a, true)
			return ok || act == "swallow"
		}
	}
}

// body is what a handler does.
func (t *traced) body(h Hand, w http.ResponseWriter, r *http.Request, a *nm.Args, native bool) bool {
	var rec, _ = t.event("="+h.Tag, h.KV, w, r, a, native)
	t.pause()
	if h.Nest > 0 {
		t.nested(rec, h.Nest, h.NestCtx, r)
	}
	if h.Act != "" && onFor(h.On, rec.idx) {
		switch h.Act {
		case "falsehdr":
			w.Header().Set("X-Tried", h.Tag)
			return false
		case "false":
			return false
		case "panic":
			panic(tracePanic{h.Tag})
		}
	}
	w.WriteHeader(http.StatusOK)
	return true
}

func (t *traced) handler(h Hand) nm.Handler {
	var fn = func(w http.ResponseWriter, r *http.Request) { t.body(h, w, r, nil, false) }
	switch h.Kind {
	case "Hr":
		return nm.Hr(http.HandlerFunc(fn))
	case "FnHr":
		return nm.FnHr(fn)
	case "HrWithArgs":
		return nm.HrWithArgs(http.HandlerFunc(fn))
	case "FnHrWithArgs":
		return nm.FnHrWithArgs(fn)
	}
	return func(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
		return t.body(h, w, r, a, true)
	}
}

func (t *traced) redirectHandler(h Hand) nm.RedirectHandler {
	return func(w http.ResponseWriter, r *http.Request, u string, code int, a *nm.Args) bool {
		var rec, _ = t.event("="+h.Tag, h.KV, w, r, a, true)
		t.pause()
		if h.Nest > 0 {
			t.nested(rec, h.Nest, h.NestCtx, r)
		}
		if h.Act != "" && onFor(h.On, rec.idx) {
			switch h.Act {
			case "falsehdr":
				w.Header().Set("X-Tried", h.Tag)
				return false
			case "false":
				return false
			case "panic":
				panic(tracePanic{h.Tag})
			}
		}
		w.WriteHeader(code)
		return true
	}
}

// maxNested is how many requests are served within one at the depth.
func maxNested(depth int) int { return [...]int{4, 2, 0}[depth] }

// nested serves another request in the middle of one.
func (t *traced) nested(rec *Rec, i int, ctx bool, r *http.Request) {
	if len(rec.inner) >= maxNested(rec.depth) || i > len(t.reqs) {
		return
	}
	if !ctx {
		r = nil
	}
	var inner, err = t.serveIn(i-1, rec.depth+1, rec, r)
	if err != nil {
		panic(err)
	}
	rec.inner = append(rec.inner, inner)
}

// serve serves the request and records what happens.
func (t *traced) serve(i, depth int) (rec *Rec, err error) { return t.serveIn(i, depth, nil, nil) }

// serveIn serves the request within another one, and with the context of it.
func (t *traced) serveIn(i, depth int, within *Rec, ctxOf *http.Request) (rec *Rec, err error) {
	var r, e = makeRequest(t.reqs[i])
	if e != nil {
		return nil, fmt.Errorf("harness: request %+v: %v", t.reqs[i], e)
	}
	rec = newRec()
	rec.idx, rec.depth = i, depth
	if ctxOf != nil {
		r = r.WithContext(ctxOf.Context())
		rec.outer = map[*nm.Args]bool{within.args: true}
		for a := range within.outer {
			rec.outer[a] = true
		}
	}
	defer func() { rec.panicV = recover() }()
	t.b.ro.ServeHTTP(rec, r)
	return rec, nil
}

// --- Applying the operations.

// newTraced gives every handler of the built site a traced one.
func newTraced(c *builtSite, reqs []Req) (*traced, error) {
	var b = c.build()
	if err := b.fill(); err != nil {
		return nil, err
	}
	var t = &traced{b: b, st: newWstate(b), reqs: reqs}
	for _, n := range b.nodes {
		var r = b.resp[n.id]
		var ns = t.st.n[n.id]
		for _, m := range n.M {
			var h = Hand{Tag: fmt.Sprintf("#%d %s", n.id, m)}
			r.SetHandlerFor(m, t.handler(h))
			ns.set(m, h)
		}
		if n.NA {
			var h = Hand{Tag: fmt.Sprintf("#%d !", n.id)}
			r.SetHandlerFor("!", t.handler(h))
			ns.set("!", h)
		}
		if n.RH {
			var h = Hand{Tag: fmt.Sprintf("#%d r", n.id)}
			r.SetRedirectHandler(t.redirectHandler(h))
			ns.rh = &h
		}
	}
	return t, nil
}

// apply makes the call and tells whether it was made.
func (t *traced) apply(o WOp, explicit bool) (bool, error) {
	var b = t.b
	var mws []nm.Middleware
	var rmws []func(nm.RedirectHandler) nm.RedirectHandler
	for _, m := range o.Mids {
		mws = append(mws, t.middleware(m))
		rmws = append(rmws, t.redirectMiddleware(m))
	}
	var n *Node
	var r responder
	var ns *nstate
	var under = b.nodes
	if o.N > 0 {
		n = b.nodes[o.N-1]
		r = b.resp[o.N]
		ns = t.st.n[o.N]
		under = n.descendants()
	}
	var via = o.Via
	if !explicit {
		via = -1
	}
	var p responder
	var a *Node
	if via > 0 {
		a, p = b.nodes[via-1], b.resp[via]
	}
	var u string
	if n != nil {
		u = n.address(a, 0)
	}
	switch o.K {
	case "P":
		switch {
		case n == nil:
			t.st.ro = copyMids(t.st.ro, o.Mids)
			b.ro.WrapRequestPasser(mws...)
			return true, nil
		case via < 0:
			r.WrapRequestPasser(mws...)
		case p != nil:
			p.WrapRequestPasserAt(u, mws...)
		default:
			b.ro.WrapRequestPasserAt(u, mws...)
		}
		ns.p = copyMids(ns.p, o.Mids)
	case "H":
		switch {
		case via < 0:
			r.WrapRequestHandler(mws...)
		case p != nil:
			p.WrapRequestHandlerAt(u, mws...)
		default:
			b.ro.WrapRequestHandlerAt(u, mws...)
		}
		ns.h = copyMids(ns.h, o.Mids)
	case "M":
		var ms []string
		for _, m := range splitMethods(o.M) {
			if ns.m[m] != nil && !contains(ms, m) {
				ms = append(ms, m)
			}
		}
		var list = strings.Join(ms, ", ")
		if o.M == "*" || o.M == "!" {
			list = o.M
			ms = []string{o.M}
			if len(ns.m) == 0 && (ns.na == nil || o.M == "*") {
				return false, nil
			}
		}
		if len(ms) == 0 {
			return false, nil
		}
		var u = n.address(a, o.Names)
		switch {
		case via < 0:
			r.WrapHandlerOf(list, mws...)
		case p != nil:
			p.WrapPathHandlerOf(list, u, mws...)
		default:
			b.ro.WrapURLHandlerOf(list, u, mws...)
		}
		ns.wrap(ms, o.Mids)
	case "R":
		switch {
		case via < 0:
			r.WrapRedirectHandler(rmws...)
		case p != nil:
			p.WrapRedirectHandlerAt(u, rmws...)
		default:
			b.ro.WrapRedirectHandlerAt(u, rmws...)
		}
		ns.r = copyMids(ns.r, o.Mids)
	case "subP":
		if n == nil {
			b.ro.WrapAllRequestPassers(mws...)
		} else {
			r.WrapSubtreeRequestPassers(mws...)
		}
		for _, e := range under {
			t.st.n[e.id].p = copyMids(t.st.n[e.id].p, o.Mids)
		}
	case "subH":
		if n == nil {
			b.ro.WrapAllRequestHandlers(mws...)
		} else {
			r.WrapSubtreeRequestHandlers(mws...)
		}
		for _, e := range under {
			t.st.n[e.id].h = copyMids(t.st.n[e.id].h, o.Mids)
		}
	case "subM":
		if n == nil {
			b.ro.WrapAllHandlersOf(o.M, mws...)
		} else {
			r.WrapSubtreeHandlersOf(o.M, mws...)
		}
		for _, e := range under {
			if ns := t.st.n[e.id]; len(ns.m) > 0 {
				ns.wrap(splitMethods(o.M), o.Mids)
			}
		}
	case "set":
		switch {
		case via < 0:
			r.SetHandlerFor(o.M, t.handler(o.H))
		case p != nil:
			p.SetPathHandlerFor(o.M, u, t.handler(o.H))
		default:
			b.ro.SetURLHandlerFor(o.M, u, t.handler(o.H))
		}
		ns.set(o.M, o.H)
	case "rh":
		switch {
		case via < 0:
			r.SetRedirectHandler(t.redirectHandler(o.H))
		case p != nil:
			p.SetRedirectHandlerAt(u, t.redirectHandler(o.H))
		default:
			b.ro.SetRedirectHandlerAt(u, t.redirectHandler(o.H))
		}
		var h = o.H
		ns.rh, ns.r = &h, nil
	case "impl":
		if len(ns.h) > 0 {
			// Whether it discards them too is left open.
			return false, nil
		}
		var impl = simpleImpl(o.S)
		switch {
		case via < 0:
			r.SetImplementation(impl)
		case p != nil:
			p.SetImplementationAt(u, impl)
		default:
			b.ro.SetImplementationAt(u, impl)
		}
		ns.impl = impl
		ns.m, ns.na = map[string]*hstate{}, nil
		switch o.S {
		case "get":
			ns.m["GET"] = &hstate{impl: "=impl get"}
		case "postna":
			ns.m["POST"] = &hstate{impl: "=impl post"}
			ns.na = &hstate{impl: "=impl na"}
		}
		if len(ns.m) > 0 {
			ns.m["OPTIONS"] = &hstate{auto: true}
		}
	case "data":
		var d interface{} = o.S
		if o.S == "" {
			d = nil
		}
		switch {
		case via < 0:
			r.SetSharedData(d)
		case p != nil:
			p.SetSharedDataAt(u, d)
		default:
			b.ro.SetSharedDataAt(u, d)
		}
		ns.data = d
	case "subD":
		var d interface{} = o.S
		if o.S == "" {
			d = nil
		}
		if n == nil {
			b.ro.SetSharedDataForAll(d)
		} else {
			r.SetSharedDataForSubtree(d)
		}
		for _, e := range under {
			if t.st.n[e.id].data == nil {
				t.st.n[e.id].data = d
			}
		}
	case "subC":
		var plains []*Node
		for _, e := range under {
			var plain, open = e.plainConfig()
			if open {
				// Is it a security property?
				return false, nil
			}
			if plain {
				plains = append(plains, e)
			}
		}
		for _, e := range plains {
			e.reconfigure(*o.C)
		}
		if n == nil {
			b.ro.SetConfigurationForAll(*o.C)
		} else {
			r.SetConfigurationForSubtree(*o.C)
		}
	}
	if n != nil {
		ns.sync(n)
	}
	return true, nil
}

// --- The reference.

type sim struct {
	t     *traced
	m     *model
	idx   int
	evs   []*Ev
	codes []int
	nf    bool // the request is found not to be handled
	open  string

	method string
	tls    bool
	hdrs   []string
	marks  string
	ws     []string
	inCtx  bool // the request's context has the arguments
	args   map[int]int
	vals   map[string]string
	fell   bool // came back from a resource
	nested []nestedSim
	outer  bool     // the context has the arguments of the request it's nested in
	impls  []string // what the methods of implementations leave
	depth  int
}

// nestedSim is a nested request.
type nestedSim struct {
	idx   int
	outer bool
	marks string
}

type simPanic struct{ tag string }

func (t *traced) simulate(ne nestedSim, depth int) (s *sim, p interface{}) {
	var q = t.reqs[ne.idx]
	s = &sim{t: t, idx: ne.idx, outer: ne.outer, marks: ne.marks, method: q.Method, tls: q.TLS, args: map[int]int{}, vals: map[string]string{}, depth: depth}
	s.m = &model{site: t.b.site, req: q, p: parsePath(q.Target), code: http.StatusPermanentRedirect, vals: map[string]string{}}
	if s.m.p.odd {
		s.open = "path ends in a dot segment"
		return
	}
	defer func() {
		if v := recover(); v != nil {
			if sp, ok := v.(simPanic); ok {
				p = tracePanic{sp.tag}
				return
			}
			panic(v)
		}
	}()
	var ok = s.mids(t.st.ro, nil, 0, s.route)
	if !ok {
		s.notFound()
	}
	return
}

func (s *sim) notFound() bool {
	s.codes = append(s.codes, http.StatusNotFound)
	s.nf = true
	return true
}

// event adds an event at the node.
func (s *sim) event(what string, n *Node, i int, kv []KV, native, in bool) {
	var e = &Ev{S: what}
	var tls = ""
	if s.tls {
		tls = " tls"
	}
	e.R = fmt.Sprintf("%s%s hdr%v ctx[%s] w[%s]", s.method, tls, s.hdrs, s.marks, strings.Join(append(append([]string(nil), s.ws...), ""), "."))
	if !s.inCtx {
		if s.outer {
			e.R += " outer args"
		}
		e.R += " no args"
	}
	if native || s.inCtx {
		e.A = &ArgObs{Vals: map[string]string{}}
		for k, v := range s.vals {
			e.A.Vals[k] = v
		}
		if n != nil {
			e.A.Node = n.id
			if t := n.top(); t.host {
				e.A.Host = t.id
			}
			e.A.Rem = s.m.remaining(n, i)
			e.A.Shared = s.t.st.n[n.id].data
			e.A.Impl = s.t.st.n[n.id].impl
		}
		e.exact = !s.fell
		e.noArgs = !in
		var got []string
		for _, x := range kv {
			if x.V > 0 {
				s.args[x.K] = x.V
				got = append(got, "set")
			} else if x.V < 0 {
				delete(s.args, x.K)
				got = append(got, "set")
			} else if v, ok := s.args[x.K]; ok {
				got = append(got, fmt.Sprint(v))
			} else {
				got = append(got, "<nil>")
			}
		}
		e.G = strings.Join(got, " ")
	}
	e.anyOK = s.nf
	s.evs = append(s.evs, e)
}

func (s *sim) nest(i int, ctx bool) {
	if i > 0 && len(s.nested) < maxNested(s.depth) && i <= len(s.t.reqs) {
		var ne = nestedSim{idx: i - 1}
		if ctx {
			ne.outer, ne.marks = s.inCtx || s.outer, s.marks
		}
		s.nested = append(s.nested, ne)
	}
}

// mids runs the middlewares, the last of which is the outermost.
func (s *sim) mids(ms []Mid, n *Node, i int, inner func() bool) bool {
	if len(ms) == 0 {
		return inner()
	}
	var m = ms[len(ms)-1]
	var rest = ms[:len(ms)-1]
	var was = *s
	if m.Conv {
		s.inCtx = true
	}
	s.event("+"+m.Tag, n, i, m.KV, !m.Conv, true)
	s.nest(m.Nest, m.NestCtx)
	var act = m.Act
	if !onFor(m.On, s.idx) {
		act = ""
	}
	if m.Conv && act == "dropfalse" {
		act = "drop"
	}
	switch act {
	case "drop":
		s.codes = append(s.codes, http.StatusTeapot)
		s.inCtx = was.inCtx
		return true
	case "dropfalse":
		return false
	case "panic":
		panic(simPanic{m.Tag})
	}
	if m.Ctx {
		s.marks += m.Tag + " "
	}
	if m.Method != "" {
		s.method = m.Method
	}
	if m.TLS {
		s.tls = true
	}
	if m.Hdr {
		s.hdrs = append(append([]string(nil), s.hdrs...), m.Tag)
	}
	if m.W {
		s.ws = append(append([]string(nil), s.ws...), m.Tag)
	}
	var ok = s.mids(rest, n, i, inner)
	s.marks, s.method, s.tls, s.hdrs, s.ws = was.marks, was.method, was.tls, was.hdrs, was.ws
	if m.Conv {
		s.event("-"+m.Tag, n, i, m.KV, false, false)
		s.inCtx = was.inCtx
		return ok
	}
	s.event(fmt.Sprintf("-%s %v", m.Tag, ok), n, i, m.KV, true, false)
	return ok || act == "swallow"
}

// redirectMids is the same for redirect handlers, which are passed the
// request as it is.
func (s *sim) redirect(n *Node, i int, code int) bool {
	var ns = s.t.st.n[n.id]
	var ms = append([]Mid(nil), ns.r...)
	for k := range ms {
		ms[k].Conv, ms[k].Method, ms[k].TLS, ms[k].Hdr, ms[k].Ctx, ms[k].W = false, "", false, false, false, false
	}
	return s.mids(ms, n, i, func() bool {
		if ns.rh == nil {
			s.codes = append(s.codes, code)
			return true
		}
		return s.hand(*ns.rh, n, i, code, true)
	})
}

func (s *sim) hand(h Hand, n *Node, i, code int, native bool) bool {
	var was = s.inCtx
	if strings.HasSuffix(h.Kind, "WithArgs") {
		s.inCtx = true
	}
	s.event("="+h.Tag, n, i, h.KV, native, true)
	s.nest(h.Nest, h.NestCtx)
	s.inCtx = was
	if h.Act != "" && onFor(h.On, s.idx) {
		switch h.Act {
		case "false", "falsehdr":
			if native {
				return false
			}
			return true // without a response
		case "panic":
			panic(simPanic{h.Tag})
		}
	}
	s.codes = append(s.codes, code)
	return true
}

// route is what the router's request passer does.
func (s *sim) route() bool {
	var host = hostOnly(s.m.req.Host)
	if host != "" {
		for _, h := range s.m.site.Hosts {
			if h.T.isStatic() && h.T.Parts[0].S == host {
				return s.visit(h, 0, false)
			}
		}
		for _, h := range s.m.site.Hosts {
			if h.T.isStatic() {
				continue
			}
			var res, vals = h.T.match(host, nil)
			if res == mUnspec {
				s.open = "host matching"
				return true
			}
			if res == mYes {
				for k, v := range vals {
					s.vals[k] = v
				}
				return s.visit(h, 0, false)
			}
		}
	}
	if s.m.site.Root != nil {
		return s.visit(s.m.site.Root, 0, false)
	}
	return s.notFound()
}

func (s *sim) visit(n *Node, i int, subAbove bool) bool {
	if n.Red != "" && n.RedAny {
		return s.redirect(n, i, n.RedCode)
	}
	subAbove = subAbove || n.C.Sub
	var ns = s.t.st.n[n.id]
	var exact = i == len(s.m.p.segs)
	if !exact {
		var ok = s.mids(ns.p, n, i, func() bool {
			var k, vals, unspec = n.child(s.m.p.segs[i])
			if unspec {
				s.open = "path segment matching"
				return true
			}
			if k == nil {
				if subAbove {
					return false
				}
				return s.notFound()
			}
			for name, v := range vals {
				s.vals[name] = v
			}
			var ok = s.visit(k, i+1, subAbove)
			for name := range vals {
				delete(s.vals, name)
			}
			s.fell = true
			return ok
		})
		if ok {
			return true
		}
		if !n.C.Sub {
			s.nf = !subAbove
			if n.host {
				return s.notFound()
			}
			return false
		}
	}
	// The scheme may have been changed by a middleware.
	var m = *s.m
	m.req.TLS = s.tls
	m.req.Method = s.method
	var e = m.handle(n, i, exact)
	switch e.Kind {
	case "404":
		return s.notFound()
	case "redirect", "redirector":
		return s.redirect(n, i, e.Code)
	}
	return s.mids(ns.h, n, i, func() bool {
		var h = ns.m[s.method]
		if h == nil {
			h = ns.na
			if h == nil {
				h = &hstate{auto: true}
			}
		}
		return s.mids(h.mids, n, i, func() bool {
			if h.h != nil {
				return s.hand(*h.h, n, i, http.StatusOK, h.h.Kind == "")
			}
			if h.impl != "" {
				s.impls = append(s.impls, h.impl)
			}
			switch {
			case h.impl == "=impl na":
				s.codes = append(s.codes, http.StatusMethodNotAllowed)
			case h.impl != "" || h == ns.m["OPTIONS"]:
				s.codes = append(s.codes, http.StatusOK)
			default:
				s.codes = append(s.codes, http.StatusMethodNotAllowed)
			}
			return true
		})
	})
}

// --- Comparing.

func evsString(evs []*Ev) string {
	var ss []string
	for _, e := range evs {
		ss = append(ss, e.S)
	}
	return "[" + strings.Join(ss, "; ") + "]"
}

// agree compares what has happened with the reference.
func (t *traced) agree(i int, rec *Rec, depth int, x *Ctx) error {
	return t.agreeIn(nestedSim{idx: i}, rec, depth, x)
}

func (t *traced) agreeIn(ne nestedSim, rec *Rec, depth int, x *Ctx) error {
	var i = ne.idx
	var s, p = t.simulate(ne, depth)
	if s.open != "" {
		return nil
	}
	x.judge()
	var q = t.reqs[i]
	var bad = func(f string, a ...interface{}) error {
		return fmt.Errorf("%+v: %s: events %s, must be %s; status %d, must be %v", q, fmt.Sprintf(f, a...), evsString(rec.evs), evsString(s.evs), rec.code, s.codes)
	}
	if fmt.Sprint(rec.panicV) != fmt.Sprint(p) {
		return bad("panics with %v, must be %v", rec.panicV, p)
	}
	for k := 0; k < len(rec.evs) || k < len(s.evs); k++ {
		if k >= len(rec.evs) || k >= len(s.evs) {
			return bad("different number of events")
		}
		var got, want = rec.evs[k], s.evs[k]
		if got.S != want.S {
			if g := strings.Fields(got.S); want.anyOK && len(g) > 0 && g[0] == strings.Fields(want.S)[0] {
				continue
			}
			return bad("event %d is %q, must be %q", k+1, got.S, want.S)
		}
		if got.R != want.R {
			return bad("at %s the request is %q, must be %q", got.S, got.R, want.R)
		}
		if got.G != want.G {
			return bad("at %s the arguments give %q, must give %q", got.S, got.G, want.G)
		}
		if (got.A == nil) != (want.A == nil) {
			return bad("at %s arguments are %v, must be %v", got.S, got.A, want.A)
		}
		if want.A == nil || want.noArgs {
			continue
		}
		if err := t.agreeArgs(got.A, want); err != nil {
			return bad("at %s %v", got.S, err)
		}
	}
	if strings.Join(rec.trace, " ") != strings.Join(s.impls, " ") {
		return bad("the implementation's methods called are %v, must be %v", rec.trace, s.impls)
	}
	switch {
	case len(s.codes) == 0:
		if rec.nCode != 0 {
			return bad("there's a response")
		}
	case rec.nCode != len(s.codes) || rec.code != s.codes[0]:
		return bad("there are %d responses", rec.nCode)
	}
	if len(rec.inner) != len(s.nested) {
		return bad("harness: %d nested requests, must be %d", len(rec.inner), len(s.nested))
	}
	for k, j := range s.nested {
		if err := t.agreeIn(j, rec.inner[k], depth+1, x); err != nil {
			return fmt.Errorf("in %+v: %v", q, err)
		}
	}
	return nil
}

func (t *traced) agreeArgs(got *ArgObs, want *Ev) error {
	var w = want.A
	if got.Node != w.Node || got.Host != w.Host {
		return fmt.Errorf("the responder is #%d of host #%d, must be #%d of #%d", got.Node, got.Host, w.Node, w.Host)
	}
	if got.Shared != w.Shared {
		return fmt.Errorf("the shared data is %v, must be %v", got.Shared, w.Shared)
	}
	if got.Impl != w.Impl {
		return fmt.Errorf("the implementation is %v, must be %v", got.Impl, w.Impl)
	}
	if w.Node > 0 && !sameRem(got.Rem, w.Rem) {
		return fmt.Errorf("the remaining path is %q, must be %q", got.Rem, w.Rem)
	}
	var n int
	for k, v := range w.Vals {
		if v != "" {
			n++
		}
		if got.Vals[k] != v {
			return fmt.Errorf("the values are %v, must have %s=%q", got.Vals, k, v)
		}
	}
	if want.exact && (got.NVals != len(w.Vals) || len(got.Vals) != n) {
		return fmt.Errorf("the values are %v, must be %v", got.Vals, w.Vals)
	}
	return nil
}
