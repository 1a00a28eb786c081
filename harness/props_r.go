package main

// Routing: R01 - R13.

import (
	"fmt"
	"net/http"
	"net/url"
	"sort"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

type caseR struct {
	Site *Site
	Reqs []Req
}

func (g *G) requests(s *Site, o ROpt, lo, hi int) []Req {
	var rs []Req
	for k := g.rng(lo, hi); k > 0; k-- {
		rs = append(rs, g.request(s, o))
	}
	return rs
}

// big enlarges the bound in the thorough tier for some of the cases.
func (g *G) big(n, thorough int) int {
	if thoroughTier && g.prob(0.3) {
		return thorough
	}
	return n
}

// runR sends the requests to the router and compares the outcomes. kinds are
// the expected outcomes to be judged, nil for all.
func runR(c caseR, x *Ctx, o cmpOpt, nt func(e Out, q Req) bool, kinds ...string) error {
	var b = build(c.Site)
	for _, q := range c.Reqs {
		var e = expect(c.Site, q)
		if e.Unspec != "" {
			x.class("left open: " + e.Unspec)
			// It must be answered anyway, and that must not harm the others.
			if _, err := send(b.ro, q); err != nil {
				return err
			}
			continue
		}
		if kinds != nil && !contains(kinds, e.Kind) {
			x.class("not judged: " + e.Kind)
			continue
		}
		var rec, err = send(b.ro, q)
		if err != nil {
			return err
		}
		x.judge()
		x.class(e.Kind)
		if nt(e, q) {
			x.nontrivial()
		}
		if err := b.compare(q, e, rec, o); err != nil {
			return err
		}
	}
	return nil
}

// --- R01: segments and values.

func genR01(g *G) caseR {
	var o = SOpt{
		depth: g.big(3, 6), width: g.big(4, 7), maxNodes: g.big(14, 40), rich: true, slash: true, pHandler: 0.85, pStatic: 0.45, pWild: 0.2,
		pTS: 0.2, hosts: g.weighted(5, 1), pGen: 0.25, pWide: 0.2,
	}
	var s = g.site(g.mix(o))
	return caseR{s, g.requests(s, ROpt{pExact: 0.6}, 2, 8)}
}

func checkR01(c caseR, x *Ctx) error {
	return runR(c, x, cmpOpt{vals: true, self: true}, func(e Out, q Req) bool {
		if e.N == nil {
			return false
		}
		for _, n := range e.Chain[1:] {
			if n.parent != nil && len(n.parent.Kids) > 1 {
				return true
			}
		}
		return false
	}, "404", "method")
}

// --- R02: hosts.

func genR02(g *G) caseR {
	var o = SOpt{
		depth: 2, width: 2, maxNodes: 10, rich: g.bit(), pHandler: 0.85, pStatic: 0.5, pWild: 0.2, hosts: g.big(5, 8), plain: true,
		pBare: 0.15,
	}
	var s = g.site(g.mix(o))
	for len(s.Hosts) == 0 {
		s = g.site(g.mix(o))
	}
	var rs = g.requests(s, ROpt{pExact: 0.75, plain: true}, 2, 8)
	for i := range rs {
		if g.prob(0.15) {
			rs[i].Host = pick(g, []string{"nowhere.net", "xexample.com", "example.com.evil.net", "a.b.example.com", "example.co", "com", "x1.testx", "localhost:1"})
		}
	}
	return caseR{s, rs}
}

func checkR02(c caseR, x *Ctx) error {
	return runR(c, x, cmpOpt{vals: true, self: true}, func(e Out, q Req) bool {
		return len(c.Site.Hosts) > 1 || c.Site.Root != nil
	}, "404", "method")
}

// --- R03: subtree handlers.

func genR03(g *G) caseR {
	var o = SOpt{
		depth: g.big(3, 6), width: 3, maxNodes: g.big(12, 30), rich: true, slash: true, pGen: 0.15, pWide: 0.04, pHandler: 0.75, pStatic: 0.5, pWild: 0.15,
		pTS: 0.3, pSub: 0.5, hosts: g.weighted(3, 1, 1), pLenTS: 0.2,
	}
	var s = g.site(g.mix(o))
	return caseR{s, g.requests(s, ROpt{pExact: 0.2, pTS: 0.3, encode: g.prob(0.3)}, 2, 8)}
}

func checkR03(c caseR, x *Ctx) error {
	return runR(c, x, cmpOpt{vals: true, self: true, rem: true}, func(e Out, q Req) bool {
		return e.Kind == "method" && !e.Exact
	}, "404", "method")
}

// --- R04: escaping.

type caseR04 struct {
	Site *Site
	Reqs [][]Req // each group differs only in escaping
}

func genR04(g *G) caseR04 {
	var o = SOpt{
		depth: 3, width: 3, maxNodes: 10, rich: g.bit(), slash: true, pGen: 0.15, pWide: 0.04, pHandler: 0.9, pStatic: 0.45, pWild: 0.3, pSub: 0.25,
		hosts: g.weighted(4, 1),
	}
	var c = caseR04{Site: g.site(g.mix(o))}
	var all = c.Site.index()
	for k := g.rng(1, 4); k > 0; k-- {
		var n = pick(g, all)
		var base = g.requestTo(c.Site, n, ROpt{pExact: 1})
		var segs = g.segsFor(n, ROpt{pExact: 0.6})
		var ts = n.TS && len(segs) > 0
		var group []Req
		base.Target = g.target(segs, ts, ROpt{})
		group = append(group, base)
		for j := g.rng(1, 3); j > 0; j-- {
			var q = base
			q.Target = g.target(segs, ts, ROpt{encode: true})
			group = append(group, q)
		}
		c.Reqs = append(c.Reqs, group)
	}
	return c
}

func checkR04(c caseR04, x *Ctx) error {
	var b = build(c.Site)
	for _, group := range c.Reqs {
		var first *Rec
		for i, q := range group {
			var rec, err = send(b.ro, q)
			if err != nil {
				return err
			}
			var e = expect(c.Site, q)
			x.judge()
			if e.Unspec == "" {
				x.class(e.Kind)
				if err := b.compare(q, e, rec, cmpOpt{vals: true, rem: true}); err != nil {
					return err
				}
			} else {
				x.class("left open: " + e.Unspec)
			}
			if i == 0 {
				first = rec
				continue
			}
			if q.Target != group[0].Target {
				x.nontrivial()
			}
			if first.code != rec.code || len(first.obs) != len(rec.obs) {
				return fmt.Errorf("%s gives %d %s, but %s, which differs only in escaping, gives %d %s",
					group[0].Target, first.code, obsString(first.obs), q.Target, rec.code, obsString(rec.obs))
			}
			for j := range rec.obs {
				var f, o = first.obs[j], rec.obs[j]
				if f.Node != o.Node || f.Kind != o.Kind || f.NVals != o.NVals || !sameMap(f.Vals, o.Vals) || !samePath(f.Rem, o.Rem) {
					return fmt.Errorf("%s gives %s, but %s, which differs only in escaping, gives %s", group[0].Target, obsString(first.obs), q.Target, obsString(rec.obs))
				}
			}
		}
	}
	return nil
}

// --- R05: methods.

var manyMethods = func() []string {
	var ms = append([]string{"OPTIONS", "CONNECT", "TRACE", "PROPFIND", "LOCK", "UNLOCK", "COPY", "MOVE", "MKCOL", "REPORT", "SEARCH", "LINK", "UNLINK", "PURGE", "PROP", "G", "GETS", "M", "MOV"}, stdMethods...)
	for i := 0; i < 8; i++ {
		ms = append(ms, fmt.Sprintf("X%d", i))
	}
	return ms
}()

func genR05(g *G) caseR {
	var o = SOpt{
		depth: 2, width: 2, maxNodes: 5, plain: true, pHandler: 0.85, pStatic: 0.7, pWild: 0.1, pSub: 0.15, pNA: 0.3,
		methods: manyMethods, maxMethods: pick(g, []int{2, 4, 17, 28}), hosts: g.weighted(4, 1),
	}
	var s = g.site(g.mix(o))
	var rs []Req
	var all = s.index()
	for k := g.rng(2, 10); k > 0; k-- {
		var n = pick(g, all)
		var ms = append([]string{"OPTIONS", "GET", "get", "HEAD"}, n.M...)
		switch g.intn(3) {
		case 0:
			ms = n.M
		case 1:
			ms = manyMethods
		}
		if len(ms) == 0 {
			ms = stdMethods
		}
		rs = append(rs, g.requestTo(s, n, ROpt{pExact: 0.9, plain: true, methods: ms}))
	}
	return caseR{s, rs}
}

func checkR05(c caseR, x *Ctx) error {
	var b = build(c.Site)
	for _, n := range b.nodes {
		var got = append([]string(nil), b.resp[n.id].AllowedHTTPMethods()...)
		sort.Strings(got)
		if strings.Join(got, ",") != strings.Join(n.allowed(), ",") {
			return fmt.Errorf("AllowedHTTPMethods of %s is %v, must be %v", b.nodeName(n), got, n.allowed())
		}
	}
	return runR(c, x, cmpOpt{allow: true}, func(e Out, q Req) bool {
		return e.Kind != "404" && (e.Kind != "method" || len(e.N.M) > 1)
	}, "404", "method", "na", "405", "options")
}

// --- R06: https.

func genR06(g *G) caseR {
	var o = SOpt{
		depth: 3, width: 3, maxNodes: 10, rich: true, pHandler: 0.85, pStatic: 0.55, pWild: 0.15, pSub: 0.25, pSec: 0.55, pRedirIns: 0.55,
		hosts: g.weighted(2, 1, 1), pRed: 0.05, pTS: 0.2,
	}
	var s = g.site(g.mix(o))
	var rs = g.requests(s, ROpt{pExact: 0.75, pTLS: 0.4, pQuery: 0.3, encode: g.prob(0.3)}, 2, 8)
	for i := range rs {
		// The client says https, but the connection isn't secure.
		if rs[i].Abs == 1 && !rs[i].TLS && g.bit() {
			rs[i].Abs = 2
		}
	}
	return caseR{s, rs}
}

func checkR06(c caseR, x *Ctx) error {
	return runR(c, x, cmpOpt{location: true}, func(e Out, q Req) bool {
		return e.N != nil && e.N.Sec && (e.N.canHandle() || e.N.Red != "")
	})
}

// --- R07: the trailing slash.

func genR07(g *G) caseR {
	var o = SOpt{
		depth: 3, width: 3, maxNodes: 10, rich: true, pHandler: 0.9, pStatic: 0.55, pWild: 0.15, pSub: 0.25, pTS: 0.5, pStrict: 0.25,
		pLenTS: 0.25, pAsIs: 0.15, hosts: g.weighted(2, 1, 1), pRed: 0.05,
		pLenUnc: pick(g, []float64{0, 0, 0.5}),
	}
	var s = g.site(g.mix(o))
	var unclean = 0.0
	if o.pLenUnc > 0 {
		unclean = 0.5
	}
	return caseR{s, g.requests(s, ROpt{pExact: 0.85, pTS: 0.5, pUnclean: unclean, pTLS: 0.2, pQuery: 0.3, encode: g.prob(0.3)}, 2, 8)}
}

func checkR07(c caseR, x *Ctx) error {
	return runR(c, x, cmpOpt{location: true}, func(e Out, q Req) bool {
		return e.N != nil && e.N.parent != nil && e.N.canHandle() && parsePath(q.Target).ts != e.N.TS
	})
}

// --- R08: the unclean path.

func genR08(g *G) caseR {
	var o = SOpt{
		depth: 3, width: 3, maxNodes: 10, rich: true, pHandler: 0.9, pStatic: 0.55, pWild: 0.15, pSub: 0.3, pTS: 0.2,
		pLenUnc: 0.35, pAsIs: 0.15, hosts: g.weighted(2, 1, 1), pRed: 0.05,
	}
	var s = g.site(g.mix(o))
	return caseR{s, g.requests(s, ROpt{pExact: 0.75, pUnclean: 0.7, pTLS: 0.2, pQuery: 0.3, encode: g.prob(0.3)}, 2, 8)}
}

func checkR08(c caseR, x *Ctx) error {
	return runR(c, x, cmpOpt{location: true, vals: true}, func(e Out, q Req) bool {
		return e.N != nil && (e.N.canHandle() || e.N.Red != "") && parsePath(q.Target).dirty
	})
}

// --- R09: redirects converge.

func genR09(g *G) caseR {
	var o = SOpt{
		depth: 3, width: 3, maxNodes: 10, rich: true, slash: true, pGen: 0.15, pWide: 0.04, pHandler: 0.95, pStatic: 0.5, pWild: 0.2, pSub: 0.3, pTS: 0.5, pSec: 0.4,
		pRedirIns: 0.9, pStrict: 0.1, pLenTS: 0.15, pLenUnc: 0.15, pAsIs: 0.08, hosts: g.weighted(2, 1, 1), pPRC: 0.2,
	}
	var s = g.site(o)
	return caseR{s, g.requests(s, ROpt{pExact: 0.75, pTS: 0.5, pUnclean: 0.5, pTLS: 0.2, pQuery: 0.5, encode: g.prob(0.5)}, 2, 8)}
}

func checkR09(c caseR, x *Ctx) error {
	var b = build(c.Site)
	for _, q := range c.Reqs {
		var e = expect(c.Site, q)
		if e.Unspec != "" || e.Kind != "redirect" {
			continue
		}
		x.judge()
		x.nontrivial()
		var hop = q
		var trail = q.Target
		var first = parsePath(q.Target)
		for i := 0; ; i++ {
			var rec, err = send(b.ro, hop)
			if err != nil {
				return err
			}
			if rec.code < 300 || rec.code > 399 {
				if i == 0 {
					return fmt.Errorf("%+v must be redirected, got %d", q, rec.code)
				}
				x.class(fmt.Sprintf("%d hops", i))
				// The last response is of the resource itself, not of a redirect.
				var e2 = expect(c.Site, hop)
				if e2.Unspec != "" {
					break
				}
				if err := b.compare(hop, e2, rec, cmpOpt{vals: true}); err != nil {
					return fmt.Errorf("%s: %v", trail, err)
				}
				if e2.N != e.N || e2.Kind == "404" {
					return fmt.Errorf("%s: redirected away from %s", trail, b.nodeName(e.N))
				}
				for k, v := range e.Vals {
					if len(rec.obs) == 1 && rec.obs[0].Vals[k] != v {
						return fmt.Errorf("%s: value %s=%q has been lost: %v", trail, k, v, rec.obs[0].Vals)
					}
				}
				break
			}
			if i >= 1 {
				return fmt.Errorf("%s: redirects don't end", trail)
			}
			var loc = rec.hdr.Get("Location")
			trail += " -> " + loc
			var u, perr = url.Parse(loc)
			if perr != nil || u.Host == "" && q.Host != "" {
				return fmt.Errorf("%s: bad location %q: %v", trail, loc, perr)
			}
			if u.Host != q.Host {
				return fmt.Errorf("%s: redirected to another host", trail)
			}
			hop = Req{Hdr: q.Hdr, V10: q.V10, End: q.End, Method: q.Method, Host: u.Host, TLS: u.Scheme == "https", Target: u.EscapedPath()}
			if q.TLS && !hop.TLS {
				return fmt.Errorf("%s: redirected to an insecure URL", trail)
			}
			if u.RawQuery != "" || u.ForceQuery {
				hop.Target += "?" + u.RawQuery
			}
			var p = parsePath(hop.Target)
			if p.query != first.query {
				return fmt.Errorf("%s: query has been %q", trail, first.query)
			}
			if strings.Join(p.segs, "\x00") != strings.Join(first.segs, "\x00") {
				return fmt.Errorf("%s: the path's segments have changed from %q to %q", trail, first.segs, p.segs)
			}
		}
	}
	return nil
}

// --- R10: exactly one response.

func genR10(g *G) caseR {
	var o = SOpt{
		depth: g.big(3, 5), width: 3, maxNodes: g.big(12, 30), rich: true, slash: true, pGen: 0.15, pWide: 0.04, pHandler: 0.7, pStatic: 0.45, pWild: 0.2, pSub: 0.4, pTS: 0.4,
		pSec: 0.3, pRedirIns: 0.5, pStrict: 0.2, pLenTS: 0.2, pLenUnc: 0.2, pAsIs: 0.1, hosts: g.weighted(2, 2, 1, 1), pPRC: 0.1, pRH: 0.2,
		pRed: 0.15, pRedAny: 0.05, pNA: 0.2, pSD: 0.2, maxMethods: 3, pF: 0.15,
	}
	var s = g.site(o)
	var rs = g.requests(s, ROpt{pExact: 0.4, pTS: 0.4, pUnclean: 0.4, pTLS: 0.3, pQuery: 0.3, encode: true, methods: manyMethods}, 2, 6)
	for i := range rs {
		switch g.weighted(6, 2, 1, 1, 1) {
		case 4: // a path that can't be decoded
			rs[i].Raw = g.badRaw(rs[i].Target)
		case 1: // random target
			var sb strings.Builder
			sb.WriteString("/")
			for k := g.rng(0, 9); k > 0; k-- {
				rs[i].Abs = 0
				sb.WriteString(pick(g, []string{"/", ".", "..", "a", "%2F", "%2e", "%2E%2e", "news", "%", "%zz", "//", "?", "b", "%00", "é", "*", ";", "%25", "~", "/./", "/../"}))
			}
			rs[i].Target = sb.String()
		case 2:
			rs[i].Host = pick(g, []string{"", "example.com:", ":80", "[::1]:80", "a..b", "EXAMPLE.com", "example.com.", "x:y:z", "localhost:99999"})
		case 3:
			rs[i].Target = pick(g, []string{"*", "http://example.com/a", "http://example.com", "//", "/..", "/.", "/%2F", "/%2e%2e/a", "//example.com/x"})
			rs[i].Abs = 0
			if rs[i].Target == "*" {
				rs[i].Method = "OPTIONS"
			}
		}
	}
	return caseR{s, rs}
}

func checkR10(c caseR, x *Ctx) error {
	var b = build(c.Site)
	for _, q := range c.Reqs {
		var r, err = makeRequest(q)
		if err != nil {
			x.class("not a request")
			continue
		}
		x.judge()
		var rec = newRec()
		b.ro.ServeHTTP(rec, r)
		x.class(fmt.Sprintf("status %d", rec.code))
		x.nontrivial()
		var ran = 0
		for _, o := range rec.obs {
			if o.Kind != "declined" {
				ran++
			}
		}
		if rec.nCode != 1 || ran > 1 {
			return fmt.Errorf("%+v: %d responses have been written, handlers called: %s", q, rec.nCode, obsString(rec.obs))
		}
	}
	return nil
}

// --- R11: RedirectRequestTo and RedirectAnyRequestTo.

func genR11(g *G) caseR {
	var o = SOpt{
		depth: 3, width: 3, maxNodes: 10, rich: true, slash: true, pGen: 0.15, pWide: 0.04, pHandler: 0.6, pStatic: 0.5, pWild: 0.15, pSub: 0.4, pTS: 0.2,
		pRed: 0.45, pRedAny: 0.2, pLenUnc: 0.2, pSec: 0.1, pRedirIns: 0.5, pRH: 0.25, hosts: g.weighted(2, 1, 1),
	}
	var s = g.site(g.mix(o))
	return caseR{s, g.requests(s, ROpt{pExact: 0.5, pTS: 0.15, pUnclean: 0.1, pTLS: 0.2, encode: g.prob(0.3), methods: []string{"GET", "POST", "OPTIONS"}}, 2, 8)}
}

func checkR11(c caseR, x *Ctx) error {
	return runR(c, x, cmpOpt{location: true, code: true, rem: true}, func(e Out, q Req) bool { return e.Kind == "redirector" })
}

// --- R12: redirect codes and handlers, the handler of not found.

// opR12 sets or wraps something, or tries to.
type opR12 struct {
	K    string // code, rh, nf, wrapr, wrapn: common; lcode, lrh, lwrap: of a responder; bad
	N    int    `json:",omitempty"` // the responder
	C    int    `json:",omitempty"` // the code, the number of middlewares, or what's bad
	Once bool   `json:",omitempty"` // the middlewares are given in one call
}

type caseR12 struct {
	Site *Site
	Reqs []Req
	Ops  [][]opR12 // before the router is built, after, and then before each request but the first
}

func genR12(g *G) caseR12 {
	var o = SOpt{
		depth: 3, width: 3, maxNodes: 9, plain: true, pHandler: 0.85, pStatic: 0.55, pWild: 0.15, pSub: 0.25, pTS: 0.5, pSec: 0.4,
		pRedirIns: 0.7, pStrict: 0.1, hosts: g.weighted(3, 1, 1), pPRC: 0.35, pRH: 0.35, pRed: 0.15, pRedAny: 0.05,
	}
	var c = caseR12{Site: g.site(g.mix(o))}
	var all = c.Site.index()
	c.Reqs = g.requests(c.Site, ROpt{pExact: 0.7, pTS: 0.5, pUnclean: 0.3, pTLS: 0.2, plain: true}, 2, 8)
	var ops = func(n int, built bool) []opR12 {
		var ops []opR12
		for ; n > 0; n-- {
			var o = opR12{Once: g.bit()}
			var w = []int{2, 2, 2, 2, 2, 1, 0, 0, 0}
			if built {
				w[6], w[7], w[8] = 2, 2, 4
			}
			o.K = []string{"code", "rh", "nf", "wrapr", "wrapn", "bad", "lcode", "lrh", "lwrap"}[g.weighted(w...)]
			switch o.K {
			case "code", "lcode":
				o.C = pick(g, []int{301, 308})
			case "wrapr", "wrapn", "lwrap":
				o.C = 1 + g.weighted(4, 2, 1, 1)
			case "bad":
				o.C = g.intn(14)
			}
			if built {
				o.N = pick(g, all).id
			}
			ops = append(ops, o)
		}
		return ops
	}
	c.Ops = append(c.Ops, ops(g.weighted(2, 2, 1, 1, 1), false), ops(g.weighted(2, 2, 2, 1, 1, 1), true))
	for range c.Reqs[1:] {
		var n = 0
		if g.prob(0.25) {
			n = g.rng(1, 3)
		}
		c.Ops = append(c.Ops, ops(n, true))
	}
	return c
}

func traceRedirect(name string) func(nm.RedirectHandler) nm.RedirectHandler {
	return func(next nm.RedirectHandler) nm.RedirectHandler {
		return func(w http.ResponseWriter, r *http.Request, u string, code int, a *nm.Args) bool {
			w.(*Rec).ev(name)
			return next(w, r, u, code, a)
		}
	}
}

func inMw(name string) nm.Middleware {
	return func(next nm.Handler) nm.Handler {
		return func(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
			w.(*Rec).ev(name)
			return next(w, r, a)
		}
	}
}

// withGlobals runs f and then restores the package's global handlers.
func withGlobals(f func() error) error {
	var prc, rh, nf = nm.PermanentRedirectCode(), nm.CommonRedirectHandler(), nm.HandlerOfNotFound()
	defer func() {
		nm.SetPermanentRedirectCode(prc)
		nm.SetCommonRedirectHandler(rh)
		nm.SetHandlerForNotFound(nf)
	}()
	return f()
}

func checkR12(c caseR12, x *Ctx) error {
	return withGlobals(func() error {
		var site = c.Site.clone()
		site.index()
		var code = http.StatusPermanentRedirect
		var wantR, wantN []string      // what's called for a redirect, and when not found
		var local = map[int][]string{} // the same of a responder's redirect handler
		var b *Built
		var tags int
		var do = func(o opR12) error {
			var n *Node
			if b != nil && o.N > 0 {
				n = b.nodes[o.N-1]
			}
			tags++
			var names []string
			var rmws []func(nm.RedirectHandler) nm.RedirectHandler
			var mws []nm.Middleware
			if strings.Contains(o.K, "wrap") {
				for i := 0; i < o.C; i++ {
					var name = fmt.Sprintf("%s%d.%d", o.K, tags, i)
					names = append([]string{name}, names...)
					rmws = append(rmws, traceRedirect(name))
					mws = append(mws, inMw(name))
				}
			}
			var wrapR = func(f func(...func(nm.RedirectHandler) nm.RedirectHandler)) {
				if o.Once {
					f(rmws...)
					return
				}
				for _, mw := range rmws {
					f(mw)
				}
			}
			switch o.K {
			case "code":
				code = o.C
				nm.SetPermanentRedirectCode(o.C)
				if nm.PermanentRedirectCode() != o.C {
					return fmt.Errorf("the common redirect code is %d, must be %d", nm.PermanentRedirectCode(), o.C)
				}
			case "rh":
				var name = fmt.Sprintf("common redirect %d", tags)
				wantR = []string{name}
				nm.SetCommonRedirectHandler(func(w http.ResponseWriter, r *http.Request, u string, code int, a *nm.Args) bool {
					w.(*Rec).ev(name)
					http.Redirect(w, r, u, code)
					return true
				})
			case "nf":
				var name = fmt.Sprintf("not found %d", tags)
				wantN = []string{name}
				nm.SetHandlerForNotFound(func(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
					w.(*Rec).ev(name)
					w.WriteHeader(http.StatusNotFound)
					return true
				})
			case "wrapr":
				wrapR(nm.WrapCommonRedirectHandler)
				wantR = append(names, wantR...)
			case "wrapn":
				if o.Once {
					nm.WrapHandlerOfNotFound(mws...)
				} else {
					for _, mw := range mws {
						nm.WrapHandlerOfNotFound(mw)
					}
				}
				wantN = append(names, wantN...)
			case "lcode":
				n.PRC = o.C
				b.resp[n.id].SetPermanentRedirectCode(o.C)
				if got := b.resp[n.id].PermanentRedirectCode(); got != o.C {
					return fmt.Errorf("the redirect code of %s is %d, must be %d", b.nodeName(n), got, o.C)
				}
			case "lrh":
				n.RH = true
				local[n.id] = []string{}
				b.resp[n.id].SetRedirectHandler(b.redirectHandler(n.id))
			case "lwrap":
				var l, ok = local[n.id]
				if !ok && !n.RH {
					l = wantR // the common one, as it's now
				}
				wrapR(b.resp[n.id].WrapRedirectHandler)
				local[n.id] = append(names, l...)
			case "bad":
				if catch(func() { badCommon(o.C) }) == nil {
					return fmt.Errorf("bad call %d to a function of the package has been accepted", o.C)
				}
			}
			return nil
		}
		for _, o := range c.Ops[0] {
			if err := do(o); err != nil {
				return err
			}
		}
		b = build(site)
		for i, q := range c.Reqs {
			for _, o := range c.Ops[i+1] {
				if err := do(o); err != nil {
					return err
				}
			}
			var e = expectCode(site, q, code)
			if e.Unspec != "" {
				continue
			}
			var rec, err = send(b.ro, q)
			if err != nil {
				return err
			}
			x.judge()
			x.class(e.Kind)
			if err := b.compare(q, e, rec, cmpOpt{code: true}); err != nil {
				return err
			}
			var want []string
			switch e.Kind {
			case "404":
				want = wantN
				x.nontrivial()
			case "redirect", "redirector":
				x.nontrivial()
				if l, ok := local[e.N.id]; ok {
					want = l
				} else if !e.N.RH {
					want = wantR
				}
			}
			if strings.Join(rec.trace, ",") != strings.Join(want, ",") {
				return fmt.Errorf("%s %s of %s: handlers called: %v, must be %v", e.Kind, q.Target, b.nodeName(e.N), rec.trace, want)
			}
		}
		return nil
	})
}

// badCommon makes a call that must be rejected and change nothing.
func badCommon(k int) {
	switch k {
	case 0:
		nm.SetCommonRedirectHandler(nil)
	case 1:
		nm.SetHandlerForNotFound(nil)
	case 2:
		nm.WrapCommonRedirectHandler()
	case 3:
		nm.WrapCommonRedirectHandler(nil)
	case 4:
		nm.WrapHandlerOfNotFound()
	case 5:
		nm.WrapHandlerOfNotFound(nil)
	default:
		nm.SetPermanentRedirectCode([]int{0, 200, 300, 302, 307, 309, 404, -301}[k-6])
	}
}

// obsBrief is what a response and its handlers come to.
func obsBrief(r *Rec) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "status %d (%d), location %q, allow %q", r.code, r.nCode, r.hdr.Get("Location"), r.hdr.Get("Allow"))
	for _, o := range r.obs {
		fmt.Fprintf(&sb, "; %s %s of #%d, %d values %v, remaining path %q, redirect %q %d", o.Kind, o.Method, o.Node, o.NVals, o.Vals, o.Rem, o.URL, o.Code)
	}
	return sb.String()
}

// --- R13: hosts and resources used directly.

func genR13(g *G) caseR {
	var o = SOpt{
		depth: g.big(3, 5), width: 3, maxNodes: 10, rich: true, slash: true, pGen: 0.15, pWide: 0.04, pHandler: 0.85, pStatic: 0.5, pWild: 0.15, pSub: 0.35, pTS: 0.4,
		pSec: 0.2, pRedirIns: 0.6, pStrict: 0.15, pLenTS: 0.15, pLenUnc: 0.2, pAsIs: 0.1, pNA: 0.2, pPRC: 0.1, pRH: 0.2, pRed: 0.1,
		maxMethods: 2,
	}
	if g.prob(0.3) {
		o.pF = 0.4
	}
	var s *Site
	switch g.intn(3) {
	case 0: // a host
		o.hosts, o.noRoot = 1, true
		s = g.site(o)
		for len(s.Hosts) == 0 {
			s = g.site(o)
		}
	case 1: // a root resource
		s = g.site(o)
	default: // a resource: the only one under a root that does nothing
		o.width = 3
		s = g.site(o)
		for len(s.Root.Kids) == 0 {
			s = g.site(o)
		}
		s.Root = &Node{T: lit("/"), root: true, Kids: s.Root.Kids[:1]}
	}
	s.Mode = pick(g, []int{1, 2})
	var rs = g.requests(s, ROpt{pExact: 0.6, pTS: 0.3, pUnclean: 0.3, pTLS: 0.3, pQuery: 0.2, encode: g.prob(0.4), methods: []string{"GET", "POST", "PUT", "OPTIONS"}}, 2, 8)
	for i := range rs {
		if g.prob(0.06) {
			rs[i].Raw = g.badRaw(rs[i].Target)
		}
	}
	return caseR{s, rs}
}

// badRaw is the path of the target with something that can't be decoded.
func (g *G) badRaw(target string) string {
	var p = target
	if k := strings.IndexAny(p, "?#"); k >= 0 {
		p = p[:k]
	}
	var k = g.intn(len(p) + 1)
	return p[:k] + pick(g, []string{"%", "%z", "%zz", "/%", "/%zz", "/%4", "%%", "/%zz/", "/%2/b"}) + p[k:]
}

func checkR13(c caseR, x *Ctx) error {
	// The tree without a router.
	var b = newBuilt(c.Site)
	var top = c.Site.tops()[0]
	var what = "root"
	if top.host {
		what = "host"
	} else if top.C == (Cfg{}) && !top.canHandle() && top.Red == "" && len(top.Kids) == 1 {
		what, top = "resource", top.Kids[0]
	}
	var visit func(n *Node) responder
	visit = func(n *Node) responder {
		var u = n.relURL()
		if n.host {
			u = n.hostURL()
		}
		var r = newResp(n, u)
		b.add(n, r)
		for _, k := range n.Kids {
			if c.Site.Mode == 1 {
				r.RegisterResource(visit(k).(*nm.Resource))
			} else {
				var kid = r.ResourceUsingConfig(k.relURL(), k.config())
				b.add(k, kid)
				for _, kk := range k.Kids {
					kid.RegisterResource(visit(kk).(*nm.Resource))
				}
			}
		}
		return r
	}
	var h = visit(top)
	var rb = build(c.Site)
	var declines = false
	for _, n := range b.nodes {
		declines = declines || n.F
	}
	for _, q := range c.Reqs {
		var e = expect(c.Site, q)
		var p = parsePath(q.Target)
		if what == "resource" && len(p.segs) == 0 {
			e.Kind = "404"
		}
		var rec, err = send(h, q)
		if err != nil {
			return err
		}
		// The router with the same tree.
		var rrec, rerr = send(rb.ro, q)
		if rerr != nil {
			return rerr
		}
		x.judge()
		if d, r := obsBrief(rec), obsBrief(rrec); d != r {
			return fmt.Errorf("%s used directly: %s: %s, but the router gives %s", what, q.Target, d, r)
		}
		// The registered one.
		if reg, ok := rb.resp[top.id]; ok {
			var grec, gerr = send(reg, q)
			if gerr != nil {
				return gerr
			}
			x.judge()
			if d, r := obsBrief(grec), obsBrief(rrec); d != r {
				return fmt.Errorf("registered %s used directly: %s: %s, but the router gives %s", what, q.Target, d, r)
			}
		}
		if q.Raw != "" {
			x.class("a path that can't be decoded")
			continue
		}
		if e.Unspec != "" || declines {
			x.class("compared with the router: " + e.Unspec)
			if declines && len(rec.obs) > 0 {
				x.nontrivial()
			}
			continue
		}
		x.judge()
		x.class(what + ": " + e.Kind)
		if e.Kind != "404" {
			x.nontrivial()
		}
		if err := b.compare(q, e, rec, cmpOpt{vals: true, rem: true, location: true, code: true, allow: true, self: true}); err != nil {
			return fmt.Errorf("%s used directly: %v", what, err)
		}
	}
	return nil
}

func init() {
	const tr = "resource trees (up to 3 levels and 14 nodes, more in the thorough tier; static, pattern and wildcard templates with several dynamic segments; built in one of 8 ways with the construction methods) and 2-8 requests aimed at the nodes, near them, and away from them; "
	register("R01", opts{quick: 300000, thorough: 1500000, rule: tr + "non-trivial: a node with siblings on its way responds"}, genR01, checkR01)
	register("R02", opts{quick: 300000, thorough: 1500000, rule: tr + "up to 4 hosts and a root resource. Non-trivial: there is more than one place to go"}, genR02, checkR02)
	register("R03", opts{quick: 300000, thorough: 1500000, rule: tr + "half of the nodes are subtree handlers. Non-trivial: a subtree handler responds to a path below it"}, genR03, checkR03)
	register("R04", opts{quick: 260000, thorough: 1500000, rule: tr + "each path is written in 2-4 ways of escaping. Non-trivial: the ways differ"}, genR04, checkR04)
	register("R05", opts{quick: 400000, thorough: 2000000, rule: tr + "1-28 methods with handlers out of 28. Non-trivial: the response isn't 404, and it isn't the only method's"}, genR05, checkR05)
	register("R06", opts{quick: 300000, thorough: 1500000, rule: tr + "half of the nodes are secure. Non-trivial: a secure node that has a handler is to decide"}, genR06, checkR06)
	register("R07", opts{quick: 300000, thorough: 1500000, rule: tr + "trailing slash properties are random. Non-trivial: the path's trailing slash isn't the resource's"}, genR07, checkR07)
	register("R08", opts{quick: 300000, thorough: 1500000, rule: tr + "most paths have empty and dot segments. Non-trivial: the path is unclean and a node that has a handler is to decide"}, genR08, checkR08)
	register("R09", opts{quick: 300000, thorough: 1500000, rule: tr + "with all the causes of redirects. Non-trivial: the request is redirected"}, genR09, checkR09)
	register("R10", opts{quick: 300000, thorough: 1500000, rule: tr + "with every feature, plus odd targets and hosts. Non-trivial: the request can be parsed by net/http"}, genR10, checkR10)
	register("R11", opts{quick: 300000, thorough: 1500000, rule: tr + "half of the nodes redirect. Non-trivial: such a node responds"}, genR11, checkR11)
	register("R12", opts{quick: 260000, thorough: 1200000, rule: tr + "with the global code, handlers and their middlewares. Non-trivial: the request is redirected or not found"}, genR12, checkR12)
	register("R13", opts{quick: 300000, thorough: 1500000, rule: tr + "the host, the root or a resource is used without a router. Non-trivial: the response isn't 404"}, genR13, checkR13)
}

// catch returns what the function has panicked with.
func catch(f func()) (v interface{}) {
	defer func() { v = recover() }()
	f()
	return nil
}
