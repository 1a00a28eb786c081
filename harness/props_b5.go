package main

// Configurations (B07) and bulk setters (B08).

import (
	"encoding/json"
	"fmt"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

// ConfOp is a step of a configuration history.
type ConfOp struct {
	K     string    `json:"k"`
	N     int       `json:"n"`
	Via   int       `json:"via"`
	Names int       `json:"names,omitempty"`
	C     nm.Config `json:"c"`
	FSec  bool      `json:"fsec,omitempty"` // the scheme is the other one
	FTS   bool      `json:"fts,omitempty"`  // the trailing slash too
	Extra int       `json:"extra,omitempty"`
}

type caseB07 struct {
	builtSite
	Ops  []ConfOp
	Reqs []Req
}

func (g *G) anyConfig() nm.Config {
	return nm.Config{
		SubtreeHandler:           g.prob(0.35),
		Secure:                   g.prob(0.15),
		RedirectsInsecureRequest: g.prob(0.2),
		HasTrailingSlash:         g.prob(0.2),
		StrictOnTrailingSlash:    g.prob(0.2),
		LenientOnTrailingSlash:   g.prob(0.2),
		LenientOnUncleanPath:     g.prob(0.2),
		HandlesThePathAsIs:       g.prob(0.15),
	}
}

func genB07(g *G) caseB07 {
	var o = fullOpt(g)
	o.maxNodes = 8
	var c = caseB07{builtSite: g.builtSite(o)}
	var all = c.Site.index()
	for i := g.rng(1, 7); i > 0; i-- {
		var n = pick(g, all)
		var op = ConfOp{N: n.id, C: g.anyConfig()}
		op.K = []string{"set", "get", "getc", "lookup", "subtree", "all", "round", "clone"}[g.weighted(6, 3, 3, 2, 2, 1, 2, 2)]
		op.Via = g.via(n)
		if op.K == "set" && g.bit() {
			op.Via = -1
		}
		op.Names = g.intn(4)
		op.FSec, op.FTS = g.prob(0.2), g.prob(0.2)
		op.Extra = g.intn(10)
		c.Ops = append(c.Ops, op)
	}
	for i := g.rng(1, 5); i > 0; i-- {
		var ro = fullReq()
		ro.pTS, ro.pUnclean, ro.pTLS = 0.5, 0.4, 0.5
		c.Reqs = append(c.Reqs, g.request(c.Site, ro))
	}
	return c
}

// clone returns a copy of the site.
func (s *Site) clone() *Site {
	var js, err = json.Marshal(s)
	if err != nil {
		panic(err)
	}
	var c Site
	if err := json.Unmarshal(js, &c); err != nil {
		panic(err)
	}
	c.index()
	return &c
}

// reconfigure is the reference of SetConfiguration.
func (n *Node) reconfigure(c nm.Config) {
	if n.root {
		c.HasTrailingSlash, c.StrictOnTrailingSlash, c.LenientOnTrailingSlash = false, false, false
		c.LenientOnUncleanPath = c.LenientOnUncleanPath || c.HandlesThePathAsIs
		c.HandlesThePathAsIs = false
	}
	n.Sec = n.Sec || c.Secure || c.RedirectsInsecureRequest
	n.TS = n.TS || c.HasTrailingSlash
	n.C = Cfg{
		Sub: c.SubtreeHandler, RedirIns: c.RedirectsInsecureRequest, Strict: c.StrictOnTrailingSlash,
		LenTS:  c.LenientOnTrailingSlash || c.HandlesThePathAsIs,
		LenUnc: c.LenientOnUncleanPath || c.HandlesThePathAsIs,
	}
}

// checkConfig compares the configuration with the node's.
func (b *Built) checkConfig(n *Node) error {
	var r = b.resp[n.id]
	var want = n.wantConfig()
	var got = nm.Config{
		SubtreeHandler: r.IsSubtreeHandler(), Secure: r.IsSecure(), RedirectsInsecureRequest: r.RedirectsInsecureRequest(),
		HasTrailingSlash: r.HasTrailingSlash(), StrictOnTrailingSlash: r.IsStrictOnTrailingSlash(),
		LenientOnTrailingSlash: r.IsLenientOnTrailingSlash(), LenientOnUncleanPath: r.IsLenientOnUncleanPath(),
		HandlesThePathAsIs: r.HandlesThePathAsIs(),
	}
	if got != want {
		return fmt.Errorf("%s: the accessors tell %+v, it must be %+v", b.nodeName(n), got, want)
	}
	if c := r.Configuration(); c != want {
		return fmt.Errorf("%s: Configuration is %+v, must be %+v", b.nodeName(n), c, want)
	}
	return nil
}

// addressWith is the address with the other scheme or trailing slash.
func (n *Node) addressWith(a *Node, names int, fsec, fts bool) string {
	var sec, ts = n.Sec, n.TS
	if fsec {
		n.Sec = !n.Sec
	}
	if fts && !n.root {
		n.TS = !n.TS
	}
	var u = n.address(a, names)
	n.Sec, n.TS = sec, ts
	return u
}

// plain says whether the configuration has nothing but the scheme's and the
// trailing slash's properties. It's open when only insecure requests are
// redirected.
func (n *Node) plainConfig() (plain, open bool) {
	var c = n.C
	var redir = c.RedirIns
	c.RedirIns = false
	return c == Cfg{} && !redir, c == Cfg{} && redir
}

func checkB07(c caseB07, x *Ctx) error {
	c.Site = c.Site.clone()
	var b = c.build()
	if err := b.fill(); err != nil {
		return err
	}
	var active = map[int]bool{}
	for _, n := range b.nodes {
		active[n.id] = c.explicit(n.id) || n.root
	}
	var story []string
	for _, o := range c.Ops {
		var n = b.nodes[o.N-1]
		var r = b.resp[o.N]
		var a *Node
		var ar responder
		if o.Via > 0 {
			a = b.nodes[o.Via-1]
			ar = b.resp[o.Via]
		}
		x.class("op " + o.K)
		x.judge()
		var what string
		var err error
		switch o.K {
		case "set":
			var via = o.Via
			if !active[n.id] {
				via = -1
			}
			var u = n.addressWith(a, o.Names, false, o.FTS && n.C.lenTS())
			what = fmt.Sprintf("SetConfiguration of #%d via %d, %+v", n.id, via, o.C)
			err = try(func() {
				switch {
				case via < 0:
					r.SetConfiguration(o.C)
				case ar != nil:
					ar.SetConfigurationAt(u, o.C)
				default:
					b.ro.SetConfigurationAt(u, o.C)
				}
			})
			n.reconfigure(o.C)
			active[n.id] = true
		case "round":
			what = fmt.Sprintf("SetConfiguration of #%d with its own", n.id)
			err = try(func() { r.SetConfiguration(r.Configuration()) })
			active[n.id] = true
		case "clone":
			what = fmt.Sprintf("a new responder with the configuration of #%d", n.id)
			var cfg = r.Configuration()
			err = try(func() {
				var k responder
				if n.host {
					k = nm.NewDormantHostUsingConfig(n.hostURL(), cfg)
				} else {
					k = nm.NewDormantResourceUsingConfig(n.relURL(), cfg)
				}
				if k.Configuration() != cfg {
					panic(fmt.Sprintf("it has %+v", k.Configuration()))
				}
				// What the URL tells is taken from it.
				var junk = cfg
				junk.Secure, junk.HasTrailingSlash = !junk.Secure, !junk.HasTrailingSlash
				if n.host {
					k = nm.NewHostUsingConfig(n.hostURL(), theGet, junk)
				} else {
					k = nm.NewResourceUsingConfig(n.relURL(), theGet, junk)
				}
				if k.Configuration() != cfg {
					panic(fmt.Sprintf("with an implementation it has %+v", k.Configuration()))
				}
			})
		case "get", "getc", "lookup":
			var conflict = active[n.id] && (o.FSec || o.FTS && !n.root && !n.C.lenTS())
			var u = n.addressWith(a, o.Names, o.FSec, o.FTS)
			if o.K != "lookup" {
				u = n.addressWith(a, 0, o.FSec, o.FTS)
			}
			var sec, ts = n.Sec != o.FSec, n.TS != o.FTS && !n.root
			var cfg = n.wantConfig()
			cfg.Secure, cfg.HasTrailingSlash = false, false
			if !sec {
				cfg.RedirectsInsecureRequest = false
			}
			what = fmt.Sprintf("%s #%d via %d with %s", o.K, n.id, o.Via, u)
			if o.K == "getc" {
				// A property more than it has.
				var lack = func(v *bool) {
					if !*v {
						conflict = conflict || active[n.id]
						*v = true
					}
				}
				switch o.Extra {
				case 0:
					lack(&cfg.SubtreeHandler)
				case 1:
					lack(&cfg.LenientOnUncleanPath)
				case 2:
					if !n.root {
						lack(&cfg.LenientOnTrailingSlash)
					}
				case 3:
					if !n.root {
						lack(&cfg.StrictOnTrailingSlash)
					}
				case 4:
					if sec {
						lack(&cfg.RedirectsInsecureRequest)
					}
				case 6, 7:
					// These have no effect on the root resource.
					if n.root {
						cfg.HasTrailingSlash = o.FSec
						cfg.StrictOnTrailingSlash = o.FTS || o.Extra == 6
						cfg.LenientOnTrailingSlash = o.Extra == 7
						if o.Names == 1 {
							cfg.HandlesThePathAsIs = cfg.LenientOnUncleanPath
						}
					}
				case 5:
					if !n.root && (!cfg.LenientOnTrailingSlash || !cfg.LenientOnUncleanPath) {
						lack(&cfg.HandlesThePathAsIs)
					}
				}
				what += fmt.Sprintf(" and %+v", cfg)
			}
			var got responder
			var e = try(func() {
				var h *nm.Host
				var res *nm.Resource
				switch {
				case o.K == "lookup" && n.host:
					h = b.ro.RegisteredHost(u)
				case o.K == "lookup" && ar != nil:
					res = ar.RegisteredResource(u)
				case o.K == "lookup":
					res = b.ro.RegisteredResource(u)
				case o.K == "get" && n.host:
					h = b.ro.Host(u)
				case o.K == "get" && ar != nil:
					res = ar.Resource(u)
				case o.K == "get":
					res = b.ro.Resource(u)
				case n.host:
					h = b.ro.HostUsingConfig(u, cfg)
				case ar != nil:
					res = ar.ResourceUsingConfig(u, cfg)
				default:
					res = b.ro.ResourceUsingConfig(u, cfg)
				}
				switch {
				case h != nil:
					got = h
				case res != nil:
					got = res
				}
			})
			if conflict {
				x.class("conflict")
				if e == nil {
					err = fmt.Errorf("must be rejected, it's configured with %+v", n.wantConfig())
				}
				break
			}
			if e != nil {
				err = fmt.Errorf("is rejected, it's configured with %+v: %v", n.wantConfig(), e)
				break
			}
			if got != r {
				err = fmt.Errorf("has given another responder")
				break
			}
			if !active[n.id] {
				active[n.id] = true
				n.Sec, n.TS = sec, ts
				if o.K == "getc" {
					n.reconfigure(cfg)
				}
				x.class("first configuration")
			}
		case "subtree", "all":
			what = fmt.Sprintf("SetConfigurationFor %s #%d %+v", o.K, n.id, o.C)
			var under []*Node
			if o.K == "all" {
				under = b.nodes
			} else {
				under = n.descendants()
			}
			for _, e := range under {
				var plain, open = e.plainConfig()
				if open {
					// Is it a security property?
					return nil
				}
				if plain {
					e.reconfigure(o.C)
					active[e.id] = true
				}
			}
			if len(under) == 0 {
				break
			}
			err = try(func() {
				if o.K == "all" {
					b.ro.SetConfigurationForAll(o.C)
				} else {
					r.SetConfigurationForSubtree(o.C)
				}
			})
		}
		if err != nil {
			return fmt.Errorf("after [%s]: %s %v", strings.Join(story, "; "), what, err)
		}
		story = append(story, what)
		for _, e := range b.nodes {
			if err := b.checkConfig(e); err != nil {
				return fmt.Errorf("after [%s]: %v", strings.Join(story, "; "), err)
			}
		}
	}
	if len(c.Ops) > 1 {
		x.nontrivial()
	}
	for _, n := range b.nodes {
		if n.C.Strict && n.C.lenTS() {
			return nil
		}
	}
	for _, q := range c.Reqs {
		var e = expect(c.Site, q)
		if e.Unspec != "" {
			continue
		}
		var rec, err = send(b.ro, q)
		if err != nil {
			return err
		}
		x.judge()
		x.class(e.Kind)
		if err := b.compare(q, e, rec, cmpOpt{vals: true, rem: true, location: true, code: true, allow: true}); err != nil {
			return fmt.Errorf("after [%s]: %v", strings.Join(story, "; "), err)
		}
	}
	return nil
}

func init() {
	register("B07", opts{
		quick: 180000, thorough: 2000000,
		rule:   "two or more steps of a configuration history (setting, setting through templates and in bulk, getters with agreeing and disagreeing schemes, slashes and properties, round trips), the configurations of all the responders compared after each step with the reference, and requests with the final ones",
		assume: []string{"properties that a getter leaves out aren't judged as disagreeing", "bulk setters aren't used when a responder has only been told to redirect insecure requests", "no requests when a responder is strict and lenient on trailing slashes at once"},
	}, genB07, checkB07)
}
