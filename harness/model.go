package main

// The reference semantics of routing: what a router with the given tree must
// do with a request. It's written from the documentation, over the data of
// spec.go and gen.go, and shares no code with the implementation.

import (
	"net"
	"net/http"
	"net/url"
	"sort"
	"strings"
)

// Out is the expected outcome of a request.
type Out struct {
	Unspec string // why the documentation leaves the outcome open
	Kind   string // "404", "method", "na", "options", "405", "redirect", "redirector"
	N      *Node  // the node that is to decide about the outcome, if any
	Exact  bool   // N is at the end of the path
	Vals   map[string]string
	Rem    string // the remaining path, escaped
	Chain  []*Node
	Method string

	// Redirects.
	Code   int
	Scheme string
	Path   string // escaped
	Query  string
	RedURL string // the URL given to RedirectRequestTo or RedirectAnyRequestTo
}

// parsedPath is the request's path.
type parsedPath struct {
	raw   string
	query string
	hasQ  bool
	clean string   // escaped
	segs  []string // unescaped segments of the clean path
	rsegs []string // escaped segments of the clean path
	ts    bool
	dirty bool
	odd   bool // has an invalid escape
}

func parsePath(target string) (p parsedPath) {
	p.raw = target
	if i := strings.IndexByte(target, '?'); i >= 0 {
		p.raw, p.query, p.hasQ = target[:i], target[i+1:], true
	}
	var parts = strings.Split(strings.TrimPrefix(p.raw, "/"), "/")
	for _, s := range parts {
		switch s {
		case "", ".":
		case "..":
			if len(p.rsegs) > 0 {
				p.rsegs = p.rsegs[:len(p.rsegs)-1]
			}
		default:
			p.rsegs = append(p.rsegs, s)
		}
	}
	p.clean = "/" + strings.Join(p.rsegs, "/")
	if len(p.rsegs) > 0 && strings.HasSuffix(p.raw, "/") {
		p.ts = true
		p.clean += "/"
	}
	p.dirty = p.clean != p.raw
	for _, s := range p.rsegs {
		var d, err = url.PathUnescape(s)
		if err != nil {
			p.odd = true
		}
		p.segs = append(p.segs, d)
	}
	return
}

type model struct {
	site  *Site
	req   Req
	p     parsedPath
	code  int // the common code of permanent redirects
	chain []*Node
	vals  map[string]string
}

func hostOnly(h string) string {
	if strings.Contains(h, ":") {
		if hh, _, err := net.SplitHostPort(h); err == nil {
			if h[0] == '[' {
				// An IPv6 address has brackets, as it does in a URL.
				return "[" + hh + "]"
			}
			return hh
		}
	}
	return h
}

// expect returns what the site must do with the request.
func expect(site *Site, req Req) Out {
	return expectCode(site, req, http.StatusPermanentRedirect)
}

func expectCode(site *Site, req Req, code int) Out {
	var m = &model{site: site, req: req, p: parsePath(req.Target), code: code, vals: map[string]string{}}
	return m.run()
}

func (m *model) run() Out {
	if m.p.odd {
		return Out{Unspec: "invalid escape"}
	}
	var host = hostOnly(m.req.Host)
	if host != "" {
		for _, h := range m.site.Hosts {
			if h.T.isStatic() && h.T.Parts[0].S == host {
				return m.start(h)
			}
		}
		for _, h := range m.site.Hosts {
			if h.T.isStatic() {
				continue
			}
			var res, vals = h.T.match(host, nil)
			if res == mUnspec {
				return Out{Unspec: "host matching"}
			}
			if res == mYes {
				for k, v := range vals {
					m.vals[k] = v
				}
				return m.start(h)
			}
		}
	}
	if m.site.Root != nil {
		return m.start(m.site.Root)
	}
	return Out{Kind: "404"}
}

// start begins with the host or the root resource.
func (m *model) start(n *Node) Out {
	var o, ok = m.visit(n, 0, false)
	if !ok {
		return m.out(Out{Kind: "404"})
	}
	return o
}

func (m *model) out(o Out) Out {
	o.Chain = append([]*Node(nil), m.chain...)
	if o.Vals == nil {
		o.Vals = map[string]string{}
		for k, v := range m.vals {
			o.Vals[k] = v
		}
	}
	return o
}

// visit returns false when nothing in the subtree of n responds.
func (m *model) visit(n *Node, i int, subAbove bool) (Out, bool) {
	m.chain = append(m.chain, n)
	if n.Red != "" && n.RedAny {
		return m.redirector(n, i), true
	}
	var exact = i == len(m.p.segs)
	if !exact {
		var k, vals, unspec = n.child(m.p.segs[i])
		if unspec {
			return Out{Unspec: "path segment matching"}, true
		}
		if k != nil {
			for nm, v := range vals {
				m.vals[nm] = v
			}
			var l = len(m.chain)
			if o, ok := m.visit(k, i+1, subAbove || n.C.Sub); ok {
				return o, true
			}
			for _, s := range n.Kids {
				if s == k {
					continue
				}
				if r, _ := s.T.match(m.p.segs[i], nil); r != mNo {
					return Out{Unspec: "another sibling matches too"}, true
				}
			}
			m.chain = m.chain[:l]
			for nm := range vals {
				delete(m.vals, nm)
			}
		}
		if !n.C.Sub {
			return Out{}, false
		}
	}
	return m.handle(n, i, exact), true
}

// child selects the child resource for the segment: static, then patterns in
// the order of registration, then the wildcard.
func (n *Node) child(seg string) (*Node, map[string]string, bool) {
	for _, k := range n.Kids {
		if k.T.isStatic() && k.T.Parts[0].S == seg {
			return k, nil, false
		}
	}
	for _, k := range n.Kids {
		if k.T.isStatic() || k.T.isWild() {
			continue
		}
		switch res, vals := k.T.match(seg, nil); res {
		case mYes:
			return k, vals, false
		case mUnspec:
			return nil, nil, true
		}
	}
	for _, k := range n.Kids {
		if k.T.isWild() {
			return k, map[string]string{k.T.Parts[0].N: seg}, false
		}
	}
	return nil, nil, false
}

// remaining returns the escaped path below the node that is at the depth i.
func (m *model) remaining(n *Node, i int) string {
	if i >= len(m.p.rsegs) {
		return ""
	}
	var rem = strings.Join(m.p.rsegs[i:], "/")
	if m.p.ts {
		rem += "/"
	}
	if n.host || n.root || !n.TS {
		rem = "/" + rem
	}
	return rem
}

func (m *model) redirector(n *Node, i int) Out {
	return m.out(Out{
		Kind: "redirector", N: n, Exact: i == len(m.p.segs), Rem: m.remaining(n, i),
		Code: n.RedCode, RedURL: n.Red,
	})
}

func (m *model) handle(n *Node, i int, exact bool) Out {
	var nf = Out{Kind: "404", N: n, Exact: exact}
	if !n.canHandle() && n.Red == "" {
		return m.out(nf)
	}
	var scheme = "http"
	if m.req.TLS {
		scheme = "https"
	}
	var path, redirect = m.p.raw, false
	if !m.req.TLS && n.Sec {
		if !n.C.RedirIns {
			return m.out(nf)
		}
		scheme, redirect = "https", true
	}
	if m.p.dirty && !n.C.lenUnc() {
		path, redirect = m.p.clean, true
	}
	var checkTS = exact && len(m.p.segs) > 0
	if n.host {
		checkTS = n.C.Sub && len(m.p.segs) > 0
	}
	if checkTS && !n.C.lenTS() && n.TS != m.p.ts {
		if n.C.Strict {
			return m.out(nf)
		}
		redirect = true
		if n.TS {
			path += "/"
		} else {
			path = strings.TrimRight(path, "/")
		}
	}
	if redirect {
		var code = m.code
		if n.PRC > 0 {
			code = n.PRC
		}
		return m.out(Out{
			Kind: "redirect", N: n, Exact: exact, Code: code, Scheme: scheme, Path: path, Query: m.p.query,
			Rem: m.remaining(n, i),
		})
	}
	if n.Red != "" {
		return m.redirector(n, i)
	}
	var o = Out{Kind: "method", N: n, Exact: exact, Method: m.req.Method, Rem: m.remaining(n, i)}
	if !contains(n.M, m.req.Method) {
		switch {
		case m.req.Method == "OPTIONS":
			o.Kind = "options"
		case n.NA:
			o.Kind = "na"
		default:
			o.Kind = "405"
		}
	}
	return m.out(o)
}

// allowed returns the methods the node's Allow header must have.
func (n *Node) allowed() []string {
	if len(n.M) == 0 {
		return nil
	}
	var ms = append([]string(nil), n.M...)
	if !contains(ms, "OPTIONS") {
		ms = append(ms, "OPTIONS")
	}
	sort.Strings(ms)
	return ms
}

// joinRed is the place a request is redirected to with the remaining path.
func joinRed(u, rem string) string {
	if !strings.HasPrefix(u, "http://") && !strings.HasPrefix(u, "https://") && !strings.HasPrefix(u, "/") {
		u = "/" + u
	}
	if rem == "" {
		return u
	}
	return strings.TrimSuffix(u, "/") + "/" + strings.TrimPrefix(rem, "/")
}
