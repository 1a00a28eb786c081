package main

// Bulk setters (B08), middlewares and handlers (M01, M02, M03, M05) and
// isolation (M06). They share the routers with traces of trace.go and differ in
// what the generated histories and requests have.

import (
	"encoding/json"
	"fmt"
	"runtime"
	"strings"
	"sync"
)

// TrOpt tells what the middlewares, the handlers and the operations have.
type TrOpt struct {
	kinds   []string // of operations
	weights []int
	maxOps  int
	pConv   float64
	pAct    float64
	pChange float64
	pKV     float64
	pNest   float64
	pKind   float64 // handlers of net/http
	dead    float64 // requests to places that may not exist
}

type caseTr struct {
	builtSite
	Ops  []WOp
	Reqs []Req
	Par  int `json:",omitempty"` // the goroutines
	Reps int `json:",omitempty"`

	Pol []int `json:",omitempty"` // requests to other routers, in between
}

func (g *G) kvs(p float64) []KV {
	var kv []KV
	for g.prob(p) && len(kv) < 4 {
		var x = KV{K: g.intn(4)}
		if g.prob(0.2) {
			x.K = g.intn(12)
		}
		if g.bit() {
			x.V = g.rng(1, 9)
			if g.prob(0.1) {
				x.V = -1
			}
		}
		kv = append(kv, x)
	}
	if g.prob(p * 0.03) { // many keys
		var k = g.rng(5, 40)
		for i := 0; i < k; i++ {
			kv = append(kv, KV{K: i, V: g.rng(1, 9)})
		}
		for i := g.rng(1, 5); i > 0; i-- {
			kv = append(kv, KV{K: g.intn(k), V: g.intn(2) * g.rng(-1, 9)}, KV{K: g.intn(k + 2)})
		}
	}
	return kv
}

func (g *G) mid(o TrOpt, nreq int) Mid {
	var m = Mid{Tag: g.uniq("m")}
	m.Conv = g.prob(o.pConv)
	m.KV = g.kvs(o.pKV)
	if g.prob(o.pNest) {
		m.Nest = g.rng(1, nreq)
		m.NestCtx = g.prob(0.6)
	}
	if g.prob(o.pAct) {
		if m.Conv {
			m.Act = pick(g, []string{"drop", "drop", "panic"})
		} else {
			m.Act = pick(g, []string{"drop", "drop", "dropfalse", "panic", "swallow"})
		}
		if g.bit() {
			m.On = g.rng(1, 255)
		}
	}
	m.Cancel = g.prob(0.02 + o.pChange/8)
	if g.prob(o.pChange) {
		switch g.intn(5) {
		case 0:
			m.Method = pick(g, []string{"GET", "POST", "PUT", "OPTIONS"})
		case 1:
			m.TLS = true
		case 2:
			m.Hdr = true
		case 3:
			m.Ctx = true
		case 4:
			m.W = true
		}
	}
	return m
}

func (g *G) mids(o TrOpt, nreq int) []Mid {
	var ms []Mid
	var k = g.weighted(5, 3, 1)
	if g.prob(0.1) {
		k = g.rng(3, 6)
	}
	for ; k >= 0; k-- {
		ms = append(ms, g.mid(o, nreq))
	}
	return ms
}

func (g *G) hand(o TrOpt, nreq int) Hand {
	var h = Hand{Tag: g.uniq("h"), KV: g.kvs(o.pKV)}
	if g.prob(o.pKind) {
		h.Kind = pick(g, []string{"Hr", "FnHr", "HrWithArgs", "FnHrWithArgs"})
	}
	if o.pAct > 0.2 && g.bit() || g.prob(o.pAct) {
		h.Act = "panic"
		if h.Kind == "" && !g.prob(0.2) {
			h.Act = pick(g, []string{"false", "false", "falsehdr"})
		}
		if g.bit() {
			h.On = g.rng(1, 255)
		}
	}
	if g.prob(o.pNest) {
		h.Nest = g.rng(1, nreq)
		h.NestCtx = g.prob(0.6)
	}
	return h
}

// wop draws a call. Most are made on the way to the node in focus.
func (g *G) wop(all []*Node, focus *Node, o TrOpt, nreq int) WOp {
	var w = WOp{K: o.kinds[g.weighted(o.weights...)]}
	if g.prob(0.65) {
		all = focus.chain()
		if contains([]string{"H", "M", "R", "set", "rh"}, w.K) && g.prob(0.6) {
			all = []*Node{focus}
		}
	}
	if strings.HasPrefix(w.K, "sub") {
		if !g.prob(0.3) {
			// The ones that have something below them.
			var ps []*Node
			for _, n := range all {
				if len(n.Kids) > 0 {
					ps = append(ps, n)
				}
			}
			if len(ps) > 0 {
				w.N = pick(g, ps).id
			}
		} else if g.bit() {
			w.N = pick(g, all).id
		}
	} else if !(w.K == "P" && g.prob(0.2)) {
		var n = pick(g, all)
		w.N = n.id
		w.Via = g.via(n)
		if g.prob(0.4) {
			w.Via = -1
		}
		w.Names = g.intn(64)
	}
	switch w.K {
	case "P", "H", "M", "R", "subP", "subH", "subM":
		w.Mids = g.mids(o, nreq)
	case "set":
		w.M = g.methodList(append([]string{"OPTIONS"}, stdMethods...))
		if g.prob(0.2) {
			w.M = "!"
		}
		w.H = g.hand(o, nreq)
	case "rh":
		w.H = g.hand(o, nreq)
		w.H.Kind = ""
	case "impl":
		w.S = pick(g, []string{"get", "postna", "none"})
	case "data", "subD":
		if !g.prob(0.1) {
			w.S = g.uniq("d")
		}
	case "subC":
		var c = g.anyConfig()
		w.C = &c
	}
	if w.K == "M" || w.K == "subM" {
		switch g.weighted(4, 2, 1) {
		case 0:
			w.M = g.methodList(append([]string{"OPTIONS"}, stdMethods...))
		case 1:
			w.M = "*"
		case 2:
			w.M = "!"
		}
	}
	return w
}

func (g *G) traceCase(so SOpt, o TrOpt, ro ROpt) caseTr {
	var c = caseTr{builtSite: g.builtSite(so)}
	var all = c.Site.index()
	var focus = pick(g, all)
	for i := 0; i < 2; i++ {
		// Deeper ones are preferred.
		if len(focus.Kids) > 0 && g.prob(0.7) {
			focus = pick(g, focus.Kids)
		}
	}
	var nreq = g.rng(1, 6)
	ro.encode = ro.encode || g.prob(0.3)
	var fms = focus.M
	if o.pAct+o.pKind > 0 && g.prob(0.7) || g.prob(0.3) {
		// Its handlers, and often those above it.
		for _, n := range focus.chain() {
			if n == focus || g.prob(0.2) {
				var ms = append([]string{pick(g, stdMethods)}, n.M...)
				if g.prob(0.15) {
					for _, i := range g.shuffled(len(manyMethods))[:g.rng(5, min(22, len(manyMethods)))] {
						ms = append(ms, manyMethods[i])
					}
				}
				if n == focus {
					fms = ms
				}
				c.Ops = append(c.Ops, WOp{K: "set", N: n.id, Via: -1, M: strings.Join(ms, " "), H: g.hand(o, nreq)})
			}
		}
	}
	for i := g.rng(1, o.maxOps); i > 0; i-- {
		c.Ops = append(c.Ops, g.wop(all, focus, o, nreq))
	}
	for i := 0; i < nreq; i++ {
		c.Reqs = append(c.Reqs, g.reqNear(c.Site, focus, ro, fms))
	}
	return c
}

// reqNear draws a request, more often than not to the node.
func (g *G) reqNear(s *Site, n *Node, ro ROpt, ms []string) Req {
	if !g.prob(0.65) {
		return g.request(s, ro)
	}
	var q = g.requestTo(s, n, ro)
	if len(ms) > 0 && g.prob(0.6) {
		q.Method = pick(g, ms)
	}
	if n.Sec && g.prob(0.6) {
		q.TLS = true
	}
	return q
}

func traceOpt(g *G) SOpt {
	var o = fullOpt(g)
	o.maxNodes = g.big(7, 16)
	o.hosts = g.weighted(3, 3, 1)
	o.pHandler = 0.8
	return o
}

func traceReq() ROpt {
	var ro = fullReq()
	ro.pTS, ro.pUnclean, ro.pQuery, ro.pTLS = 0.1, 0.05, 0.02, 0.6
	return ro
}

// ready builds the router and makes the calls.
func (c *caseTr) ready(x *Ctx) (*traced, error) {
	c.Site = c.Site.clone()
	var t, err = newTraced(&c.builtSite, c.Reqs)
	if err != nil {
		return nil, err
	}
	for i, o := range c.Ops {
		var done bool
		var err = try(func() { done, _ = t.apply(o, o.N == 0 || c.explicit(o.N)) })
		if err != nil {
			var js, _ = json.Marshal(o)
			return nil, fmt.Errorf("call %d %s: %v", i+1, js, err)
		}
		if done {
			x.class("op " + o.K)
		}
	}
	return t, nil
}

// clash says whether a responder is both strict and lenient.
func (t *traced) clash() bool {
	for _, n := range t.b.nodes {
		if n.C.Strict && n.C.lenTS() {
			return true
		}
	}
	return false
}

func (t *traced) serveAll(x *Ctx, nt func(*Rec) bool) error {
	for i := range t.reqs {
		if len(t.pol) > 0 {
			pollute(t.pol[i%len(t.pol)])
		}
		var rec, err = t.serve(i, 0)
		if err != nil {
			return err
		}
		if nt(rec) {
			x.nontrivial()
		}
		x.class(fmt.Sprintf("%d events", min(len(rec.evs), 8)))
		if err := t.agree(i, rec, 0, x); err != nil {
			return fmt.Errorf("request %d: %v", i+1, err)
		}
	}
	return nil
}

// --- B08: bulk setters.

func genB08(g *G) caseTr {
	var so = traceOpt(g)
	so.pCrowd = 0.01
	return g.traceCase(so, TrOpt{
		kinds:   []string{"subD", "subC", "subP", "subH", "subM", "data", "set", "P", "H", "M"},
		weights: []int{4, 4, 3, 3, 4, 2, 2, 1, 1, 1},
		maxOps:  7,
	}, traceReq())
}

func checkB08(c caseTr, x *Ctx) error {
	var t, err = c.ready(x)
	if err != nil {
		return err
	}
	for _, n := range t.b.nodes {
		x.judge()
		if err := t.b.checkConfig(n); err != nil {
			return err
		}
		if d := t.b.resp[n.id].SharedData(); d != t.st.n[n.id].data {
			return fmt.Errorf("%s has the shared data %v, must have %v", t.b.nodeName(n), d, t.st.n[n.id].data)
		}
	}
	for _, o := range c.Ops {
		if strings.HasPrefix(o.K, "sub") && (o.N == 0 || len(t.b.nodes[o.N-1].Kids) > 0) {
			x.nontrivial()
		}
	}
	if t.clash() {
		return nil
	}
	return t.serveAll(x, func(*Rec) bool { return false })
}

// --- M01: order and scope.

func genM01(g *G) caseTr {
	return g.traceCase(traceOpt(g), TrOpt{
		kinds:   []string{"P", "H", "M", "R", "subP", "subH", "subM", "set", "rh"},
		weights: []int{5, 4, 4, 2, 1, 1, 1, 2, 1},
		maxOps:  g.big(9, 16),
	}, traceReq())
}

func checkTr(c caseTr, x *Ctx, nt func(*Rec) bool) error {
	var t, err = c.ready(x)
	if err != nil {
		return err
	}
	return t.serveAll(x, nt)
}

func checkM01(c caseTr, x *Ctx) error {
	return checkTr(c, x, func(r *Rec) bool { return len(r.evs) > 2 })
}

// --- M02: what's returned.

func genM02(g *G) caseTr {
	var so = traceOpt(g)
	so.pSub, so.pSec, so.pTS, so.pRedAny = 0.35, 0.05, 0.1, 0.02
	return g.traceCase(so, TrOpt{
		kinds:   []string{"P", "H", "M", "R", "subP", "subH", "subM", "set", "rh"},
		weights: []int{5, 3, 3, 2, 1, 1, 1, 6, 2},
		maxOps:  g.big(8, 14), pAct: 0.3, pConv: 0.25, pKind: 0.15,
	}, traceReq())
}

func checkM02(c caseTr, x *Ctx) error {
	return checkTr(c, x, func(r *Rec) bool {
		for _, e := range r.evs {
			for _, o := range c.Ops {
				for _, m := range o.Mids {
					if m.Act != "" && e.S == "+"+m.Tag {
						x.class("middleware " + m.Act)
						return true
					}
				}
				if o.H.Act != "" && e.S == "="+o.H.Tag {
					x.class("handler " + o.H.Act)
					return true
				}
			}
		}
		return false
	})
}

// --- M03: converters.

func genM03(g *G) caseTr {
	return g.traceCase(traceOpt(g), TrOpt{
		kinds:   []string{"P", "H", "M", "subP", "subH", "subM", "set", "R"},
		weights: []int{5, 4, 4, 1, 1, 1, 6, 1},
		maxOps:  g.big(9, 16), pConv: 0.6, pKind: 0.7, pChange: 0.5, pAct: 0.05, pKV: 0.2, pNest: 0.06,
	}, traceReq())
}

func checkM03(c caseTr, x *Ctx) error {
	return checkTr(c, x, func(r *Rec) bool {
		for _, e := range r.evs {
			for _, o := range c.Ops {
				for _, m := range o.Mids {
					if m.Conv && e.S == "+"+m.Tag {
						return true
					}
				}
				if o.H.Kind != "" && e.S == "="+o.H.Tag {
					x.class(o.H.Kind)
					return true
				}
			}
		}
		return false
	})
}

// --- M05: arguments.

func genM05(g *G) caseTr {
	var so = traceOpt(g)
	so.pSub, so.pStatic = 0.3, 0.35
	var ro = traceReq()
	ro.pExact = 0.5
	return g.traceCase(so, TrOpt{
		kinds:   []string{"P", "H", "M", "R", "subP", "subH", "subM", "set", "rh", "impl", "data", "subD"},
		weights: []int{5, 3, 2, 1, 3, 2, 2, 3, 1, 2, 2, 1},
		maxOps:  g.big(9, 16), pConv: 0.2, pKind: 0.2, pKV: 0.5, pNest: 0.03,
	}, ro)
}

func checkM05(c caseTr, x *Ctx) error {
	return checkTr(c, x, func(r *Rec) bool {
		for _, e := range r.evs {
			if e.A != nil && (len(e.A.Vals) > 0 || e.A.Rem != "" || e.G != "") {
				return true
			}
		}
		return false
	})
}

// --- M06: isolation.

func genM06(g *G) caseTr {
	var so = traceOpt(g)
	so.pStatic = 0.35
	var ro = traceReq()
	ro.pUnclean, ro.pTS = 0.15, 0.2
	var c = g.traceCase(so, TrOpt{
		kinds:   []string{"P", "H", "M", "R", "subP", "subH", "subM", "set", "rh", "impl", "data"},
		weights: []int{5, 3, 2, 1, 2, 2, 2, 4, 1, 1, 1},
		maxOps:  g.big(8, 14), pConv: 0.35, pKind: 0.3, pKV: 0.4, pNest: 0.12, pAct: 0.06, pChange: 0.15,
	}, ro)
	var all = c.Site.index()
	for k := g.rng(2, 6); k > 0; k-- {
		var n = pick(g, all)
		c.Reqs = append(c.Reqs, g.reqNear(c.Site, n, ro, n.M))
	}
	if g.prob(0.3) {
		// The roots.
		for k := g.rng(1, 2); k > 0; k-- {
			var q = pick(g, c.Reqs)
			q.Target = pick(g, []string{"/", "/?a=1", "//", "/./", "/nowhere", "/nowhere/"})
			c.Reqs = append(c.Reqs, q)
		}
		var rs = append([]Req(nil), c.Reqs...)
		for i, k := range g.shuffled(len(rs)) {
			c.Reqs[i] = rs[k]
		}
	}
	c.Par = g.rng(2, 6)
	c.Reps = g.rng(1, 3)
	if g.prob(0.6) {
		for k := g.rng(1, 4); k > 0; k-- {
			c.Pol = append(c.Pol, g.intn(polluters))
		}
	}
	return c
}

func checkM06(c caseTr, x *Ctx) error {
	var t, err = c.ready(x)
	if err != nil {
		return err
	}
	// One after another.
	var n = 0
	t.pol = c.Pol
	if err := t.serveAll(x, func(r *Rec) bool { n += len(r.evs); return len(r.inner) > 0 }); err != nil {
		return err
	}
	if n > 3 {
		x.nontrivial()
	}
	// At once.
	t.slow = true
	var recs = make([][]*Rec, c.Par)
	var errs = make([]error, c.Par)
	var wg sync.WaitGroup
	var start = make(chan struct{})
	for p := 0; p < c.Par; p++ {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			<-start
			for k := 0; k < c.Reps*len(c.Reqs); k++ {
				if len(c.Pol) > 0 && k&1 == 0 {
					pollute(c.Pol[(k/2+p)%len(c.Pol)])
				}
				var rec, err = t.serve((k+p)%len(c.Reqs), 0)
				if err != nil {
					errs[p] = err
					return
				}
				recs[p] = append(recs[p], rec)
				if k%3 == p%3 {
					runtime.Gosched()
				}
			}
		}(p)
	}
	close(start)
	wg.Wait()
	for p := range recs {
		if errs[p] != nil {
			return errs[p]
		}
		for k, rec := range recs[p] {
			if err := t.agree((k+p)%len(c.Reqs), rec, 0, x); err != nil {
				return fmt.Errorf("goroutine %d, request %d: %v", p+1, k+1, err)
			}
		}
	}
	return nil
}

func init() {
	register("B08", opts{
		quick: 240000, thorough: 2500000,
		rule: "a bulk setter has been used where there are responders for it; the shared data and the configuration of all the responders are compared with the reference, and so are the traces of 1-6 requests",
	}, genB08, checkB08)
	register("M01", opts{
		quick: 240000, thorough: 2500000,
		rule: "more than two middlewares or handlers have been called for a request",
	}, genM01, checkM01)
	register("M02", opts{
		quick: 240000, thorough: 2500000,
		rule: "a middleware that stops, panics or hides the result, or a handler that returns false or panics has been called",
	}, genM02, checkM02)
	register("M03", opts{
		quick: 240000, thorough: 2500000,
		rule: "a converted middleware or handler has been called",
	}, genM03, checkM03)
	register("M05", opts{
		quick: 240000, thorough: 2500000,
		rule: "the arguments have had values, a remaining path, or custom arguments at some point of a request",
	}, genM05, checkM05)
	register("M06", opts{
		quick: 20000, thorough: 200000,
		rule: "more than three middlewares or handlers have been called, or there's a nested request; each request is served one after another, and from 2-6 goroutines at once, under the race detector; between them there are, more often than not, requests to responders of another router",
	}, genM06, checkM06)
}
