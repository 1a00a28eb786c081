package main

// Merging trees that have been built apart (B03).

import (
	"fmt"

	nm "github.com/shohruhadham/nanomux"
)

type caseB03 struct {
	Site  *Site
	Top   int   // the node whose subtree is made of parts
	Masks []int `json:"masks"` // of each node by id: the parts it's in
	Owner []int `json:"owner"` // of each node by id: the part that has its handlers
	Impl  []bool
	Order []int // the order in which the parts are registered
	How   []int // of each part
	Reqs  []Req
}

// The ways of registering a part.
const (
	partParent = iota // RegisterResource of the parent, or of the router
	partURL           // RegisterResource of the router, with the whole URL
	partUnder         // RegisterResourceUnder
	partDirect        // no part of its own, it's built in the router
	nParts
)

func (n *Node) bare() bool {
	return len(n.M) == 0 && !n.NA && n.Red == "" && n.PRC == 0 && !n.RH && n.SD == ""
}

func (n *Node) noConfig() bool { return n.C == Cfg{} && !n.Sec && !n.TS }

func genB03(g *G) caseB03 {
	var o = fullOpt(g)
	o.pHandler = pick(g, []float64{0.3, 0.6, 0.9})
	var c = caseB03{Site: g.site(o)}
	var all = c.Site.index()
	var top = pick(g, all)
	if g.bit() {
		top = top.top()
	}
	// Patterns are tried in the order of registration, there must be only one,
	// or all of them must be in the same part.
	var several = g.prob(0.4)
	preorder(top, func(n *Node) {
		var kids []*Node
		if several {
			return
		}
		var pats = 0
		for _, k := range n.Kids {
			if k.T.isPat() {
				pats++
			}
			if !k.T.isPat() || pats == 1 {
				kids = append(kids, k)
			}
		}
		n.Kids = kids
	})
	// It's registered after its siblings.
	var last = func(ns []*Node) {
		for i, n := range ns {
			if n == top {
				copy(ns[i:], ns[i+1:])
				ns[len(ns)-1] = top
				break
			}
		}
	}
	if top.parent != nil {
		last(top.parent.Kids)
	} else {
		last(c.Site.Hosts)
	}
	all = c.Site.index()
	c.Top = top.id
	var np = g.rng(2, 3)
	c.Masks = make([]int, len(all)+1)
	c.Owner = make([]int, len(all)+1)
	c.Impl = make([]bool, len(all)+1)
	c.Order = g.shuffled(np)
	for i := 0; i < np; i++ {
		c.How = append(c.How, g.intn(nParts))
	}
	preorder(top, func(n *Node) {
		var pm = 1<<np - 1
		if n != top {
			pm = c.Masks[n.parent.id]
		}
		var m = 0
		for i := 0; i < np; i++ {
			if pm>>i&1 == 1 && g.prob(0.6) {
				m |= 1 << i
			}
		}
		if m == 0 {
			m = pm & -pm
		}
		if n != top && n.T.isPat() {
			var pats = 0
			for _, k := range n.parent.Kids {
				if !k.T.isPat() {
					continue
				}
				if pats++; pats == 1 && k != n {
					// The part of the first one.
					m = c.Masks[k.id]
				}
			}
			if pats > 1 && m&(m-1) != 0 {
				m &= -m
			}
		}
		if n == top {
			m = pm
			if n.bare() == false && len(n.M) == 0 {
				n.Red, n.PRC, n.RH, n.SD, n.RedAny = "", 0, false, "", false
			}
		} else if len(n.M) == 0 && !n.bare() {
			// What has no handlers isn't kept when there's another one.
			for i := 0; i < np; i++ {
				if m>>i&1 == 1 {
					m = 1 << i
					break
				}
			}
		}
		c.Masks[n.id] = m
		var owners []int
		for i := 0; i < np; i++ {
			if m>>i&1 == 1 {
				owners = append(owners, i)
			}
		}
		c.Owner[n.id] = pick(g, owners)
		if len(n.M) > 0 || n.bare() && n.noConfig() {
			c.Impl[n.id] = n != top && n.T.Name == "" && g.bit()
		}
	})
	// What's configured but has no handlers yet isn't kept when there's an
	// implicitly created one.
	preorder(top, func(n *Node) {
		for p := 0; p < np; p++ {
			if c.in(n, p) && c.Owner[n.id] != p && !c.implicit(n, p) && !n.noConfig() {
				c.Impl[n.id] = false
			}
		}
	})
	for i := g.rng(1, 5); i > 0; i-- {
		c.Reqs = append(c.Reqs, g.request(c.Site, fullReq()))
	}
	return c
}

// in says whether the node is in the part.
func (c *caseB03) in(n *Node, part int) bool { return c.Masks[n.id]>>part&1 == 1 }

// implicit says whether the part's copy of the node is created implicitly. It
// must have something below it then.
func (c *caseB03) implicit(n *Node, part int) bool {
	if !c.Impl[n.id] || len(n.M) > 0 && c.Owner[n.id] == part {
		return false
	}
	for _, k := range n.Kids {
		if c.in(k, part) {
			return true
		}
	}
	return false
}

func (c *caseB03) owns(n *Node, part int) bool {
	return c.Owner[n.id] == part && !c.implicit(n, part)
}

// part makes the part's tree and returns its top.
func (c *caseB03) part(b *Built, top *Node, part int, url string) responder {
	var made = map[int]responder{}
	preorder(top, func(n *Node) {
		if !c.in(n, part) || c.implicit(n, part) {
			return
		}
		var r responder
		if n == top {
			r = newResp(n, url)
		} else {
			// The closest one above that has been made.
			var a = n.parent
			for made[a.id] == nil {
				a = a.parent
			}
			r = made[a.id].ResourceUsingConfig(n.urlFrom(a), n.config())
		}
		made[n.id] = r
		b.seen[r] = true
		c.own(b, n, part, r)
	})
	return made[top.id]
}

func (c *caseB03) own(b *Built, n *Node, part int, r responder) {
	if !c.owns(n, part) {
		return
	}
	for _, m := range n.M {
		r.SetHandlerFor(m, b.methodHandler(n.id, m))
	}
	b.addRest(n, r)
}

// sofar returns the part of the site that has been registered.
func (c *caseB03) sofar(done map[int]bool, top *Node) *Site {
	var s = &Site{Mode: c.Site.Mode}
	var within func(n *Node) bool
	within = func(n *Node) bool { return n == top || n.parent != nil && within(n.parent) }
	var copyOf func(n, parent *Node) *Node
	copyOf = func(n, parent *Node) *Node {
		var k = *n
		k.Kids, k.parent = nil, parent
		if within(n) {
			var any, owned, explicit = false, false, false
			for p := range done {
				any = any || c.in(n, p)
				owned = owned || c.owns(n, p)
				explicit = explicit || c.in(n, p) && !c.implicit(n, p)
			}
			if !any {
				return nil
			}
			if !owned && !n.bare() {
				k.M, k.NA, k.Red, k.RedAny, k.PRC, k.RH, k.SD = nil, false, "", false, 0, false, ""
			}
			if !explicit {
				k.C, k.Sec, k.TS = Cfg{}, false, false
			}
		}
		for _, e := range n.Kids {
			if ke := copyOf(e, &k); ke != nil {
				k.Kids = append(k.Kids, ke)
			}
		}
		return &k
	}
	for _, h := range c.Site.Hosts {
		if k := copyOf(h, nil); k != nil {
			s.Hosts = append(s.Hosts, k)
		}
	}
	if c.Site.Root != nil {
		s.Root = copyOf(c.Site.Root, nil)
	}
	return s
}

func checkB03(c caseB03, x *Ctx) error {
	var b = newBuilt(c.Site)
	b.seen = map[responder]bool{}
	if len(c.Masks) != len(b.nodes)+1 || len(c.Owner) != len(c.Masks) || len(c.Impl) != len(c.Masks) {
		return nil
	}
	var top = b.nodes[c.Top-1]
	var inTop = map[int]bool{}
	var multi = 0
	preorder(top, func(n *Node) {
		inTop[n.id] = true
		if m := c.Masks[n.id]; m&(m-1) != 0 && n != top {
			multi++
		}
	})
	for _, t := range c.Site.tops() {
		preorder(t, func(n *Node) {
			if inTop[n.id] {
				return
			}
			var r responder
			switch {
			case n.host:
				r = b.ro.HostUsingConfig(n.hostURL(), n.config())
			case n.root:
				r = b.ro.ResourceUsingConfig(n.relURL(), n.config())
			default:
				r = b.resp[n.parent.id].ResourceUsingConfig(n.relURL(), n.config())
			}
			b.add(n, r)
		})
	}
	if multi > 0 {
		x.nontrivial()
	}
	x.class(fmt.Sprintf("%d nodes in several parts", multi))
	var done = map[int]bool{}
	var story string
	for _, p := range c.Order {
		var how = c.How[p]
		story += fmt.Sprintf(" part %d by %d", p, how)
		var err = try(func() {
			switch {
			case how == partDirect:
				preorder(top, func(n *Node) {
					if !c.in(n, p) || c.implicit(n, p) {
						return
					}
					var r responder
					if n.host {
						r = b.ro.HostUsingConfig(n.fullURL(), n.config())
					} else {
						r = b.ro.ResourceUsingConfig(n.fullURL(), n.config())
					}
					c.own(b, n, p, r)
				})
			case top.host:
				b.ro.RegisterHost(c.part(b, top, p, top.hostURL()).(*nm.Host))
			case top.root:
				b.ro.RegisterResource(c.part(b, top, p, top.relURL()).(*nm.Resource))
			case how == partURL:
				b.ro.RegisterResource(c.part(b, top, p, top.fullURL()).(*nm.Resource))
			case how == partUnder && top.parent.parent != nil:
				b.resp[top.top().id].RegisterResourceUnder(top.parent.pathFrom(top.top()), c.part(b, top, p, top.relURL()).(*nm.Resource))
			case how == partUnder && top.hostPart() != "":
				b.ro.RegisterResourceUnder("http://"+top.hostPart()+top.parent.path(), c.part(b, top, p, top.relURL()).(*nm.Resource))
			default:
				b.resp[top.parent.id].RegisterResource(c.part(b, top, p, top.relURL()).(*nm.Resource))
			}
		})
		x.judge()
		if err != nil {
			return fmt.Errorf("%s:%s can't be registered: %v", b.nodeName(top), story, err)
		}
		done[p] = true
		b.look()
		var s = c.sofar(done, top)
		for _, q := range c.Reqs {
			var e = expect(s, q)
			var rec, err = send(b.ro, q)
			if err != nil {
				return err
			}
			if e.Unspec != "" {
				continue
			}
			x.judge()
			x.class(e.Kind)
			if err := b.compare(q, e, rec, cmpOpt{vals: true, rem: true, location: true, code: true, allow: true}); err != nil {
				return fmt.Errorf("after%s: %v", story, err)
			}
		}
	}
	if err := b.checkTree(); err != nil {
		return fmt.Errorf("after%s: %v", story, err)
	}
	if err := b.checkLeft(x); err != nil {
		return fmt.Errorf("after%s: %v", story, err)
	}
	return nil
}

func init() {
	register("B03", opts{
		quick: 195000, thorough: 1500000,
		rule:   "a responder below the top of the merged trees is in several of them (2-3 overlapping trees, each registered in one of 4 ways or built in place; the responses are compared with the model's after each registration, and the tree's introspection after the last)",
		assume: []string{"what has no handlers is equal in all of the parts (or in one of them only)", "there's one pattern among siblings of a merged tree (the order isn't documented)"},
	}, genB03, checkB03)
}
