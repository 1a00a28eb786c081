package main

// Conflicting and malformed calls (B02).

import (
	"fmt"
	"net/http"
	"sort"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

// badCall is a call that must panic and change nothing.
type badCall struct {
	name string
	f    func(b *Built)
}

// Bad names a call at a node.
type Bad struct {
	N    int    `json:"n"`
	Call string `json:"call"`
}

type caseB02 struct {
	builtSite
	Bads []Bad
	Ext  int // the node that's extended afterwards
	Reqs []Req
}

// urlOf keeps the URLs that the dormant resources of a case were made with.
var urlOf map[*nm.Resource]string

func dormant(url string) *nm.Resource {
	var r = nm.NewDormantResource(url)
	if urlOf != nil {
		urlOf[r] = url
	}
	return r
}

// given is a dormant responder that a bad call is given.
type given struct {
	r   responder
	was []string
}

// dumpOf describes a responder and what's below it.
func dumpOf(r responder) []string {
	var out []string
	var visit func(r responder, path string)
	visit = func(r responder, path string) {
		out = append(out, path+" = "+describe(r))
		for _, k := range r.ChildResources() {
			visit(k, path+"/"+k.Template().String())
		}
	}
	visit(r, r.Template().String())
	sort.Strings(out)
	return out
}

// tried is a dormant resource that mustn't be registered by the bad call, or
// changed.
func (b *Built) tried(r *nm.Resource) *nm.Resource {
	b.failed = append(b.failed, given{r, dumpOf(r)})
	return r
}

func (b *Built) triedHost(h *nm.Host) *nm.Host {
	b.failed = append(b.failed, given{h, dumpOf(h)})
	return h
}

// checkGiven checks that a rejected responder is as it was before the call.
func (b *Built) checkGiven() error {
	for _, g := range b.failed {
		if g.r.Router() != nil {
			return fmt.Errorf("the given responder is registered")
		}
		if h, ok := g.r.(*nm.Host); ok && b.ro.HasHost(h) {
			return fmt.Errorf("the router has the given host")
		}
		var r, _ = g.r.(*nm.Resource)
		if r != nil && r.Parent() != nil {
			return fmt.Errorf("the given resource has a parent")
		}
		if df := diffStrings(g.was, dumpOf(g.r)); df != "" {
			return fmt.Errorf("the given responder has changed: %s", df)
		}
		for _, k := range g.r.ChildResources() {
			if r != nil && k.Parent() != r || r == nil && k.Host() != g.r.(*nm.Host) {
				return fmt.Errorf("a child of the given responder has another parent")
			}
		}
		// It can still be registered where its URL says, and nowhere else.
		var u, ok = urlOf[r]
		if r == nil || !ok || !strings.HasPrefix(u, "http") {
			continue
		}
		if try(func() { nm.NewRouter().RegisterResource(dormant(u)) }) != nil {
			continue
		}
		if err := try(func() { dormant("http:///zz-never/zz-there").RegisterResource(r) }); err == nil && strings.Count(strings.TrimRight(strings.SplitN(u, "//", 2)[1], "/"), "/") > 1 {
			return fmt.Errorf("the given resource of %q can be registered elsewhere", u)
		} else if err == nil {
			continue
		}
		var ro = nm.NewRouter()
		if err := try(func() { ro.RegisterResource(r) }); err != nil {
			return fmt.Errorf("the given resource of %q can't be registered in another router: %v", u, err)
		}
		if ro.RegisteredResource(u) != r {
			return fmt.Errorf("the given resource of %q is registered elsewhere", u)
		}
	}
	return nil
}

// renamed returns the template with the value names changed.
func (t *Tmpl) renamed(f func(string) string) Tmpl {
	var c = Tmpl{Name: t.Name}
	for _, p := range t.Parts {
		if p.K != "s" {
			p.N = f(p.N)
		}
		c.Parts = append(c.Parts, p)
	}
	return c
}

// calls at the place of a child of p (nil: a resource without a host or a host
// of the router) with the segment's template that must all be rejected.
func (b *badList) child(kind string, p *Node, seg string) {
	var rel = "http:///" + seg
	var full = "http://" + p.hostPart() + p.path() + "/" + seg
	var pid = p.id
	b.add(kind+" Resource", func(b *Built) { b.resp[pid].Resource(rel) })
	b.add(kind+" Resource path", func(b *Built) { b.resp[pid].Resource("/" + seg) })
	b.add(kind+" ResourceUsingConfig", func(b *Built) { b.resp[pid].ResourceUsingConfig(rel, nm.Config{SubtreeHandler: true}) })
	b.add(kind+" Resource deep", func(b *Built) { b.resp[pid].Resource(rel + "/zz-deep") })
	b.add(kind+" RegisterResource", func(b *Built) { b.resp[pid].RegisterResource(b.tried(dormant(rel))) })
	b.add(kind+" RegisterResource with handler", func(b *Built) {
		var r = dormant(rel)
		r.SetHandlerFor("GET", tagHandler("bad"))
		b.resp[pid].RegisterResource(b.tried(r))
	})
	b.add(kind+" RegisterResource URL", func(b *Built) { b.resp[pid].RegisterResource(b.tried(dormant(full))) })
	b.add(kind+" RegisterResource URL deep", func(b *Built) { b.resp[pid].RegisterResource(b.tried(dormant(full + "/zz-deep"))) })
	b.add(kind+" RegisterResourceUnder", func(b *Built) { b.resp[pid].RegisterResourceUnder("/"+seg, b.tried(dormant("http:///zz-deep"))) })
	b.add(kind+" SetSharedDataAt", func(b *Built) { b.resp[pid].SetSharedDataAt(rel, "bad") })
	b.add(kind+" SetConfigurationAt", func(b *Built) { b.resp[pid].SetConfigurationAt(rel+"/zz-deep", nm.Config{}) })
	b.add(kind+" SetPathHandlerFor", func(b *Built) { b.resp[pid].SetPathHandlerFor("GET", rel, tagHandler("bad")) })
	b.add(kind+" WrapRequestPasserAt", func(b *Built) { b.resp[pid].WrapRequestPasserAt(rel, traceMw("bad")) })
	b.add(kind+" router Resource", func(b *Built) { b.ro.Resource(full) })
	b.add(kind+" router ResourceUsingConfig", func(b *Built) { b.ro.ResourceUsingConfig(full+"/zz-deep", nm.Config{}) })
	b.add(kind+" router RegisterResource", func(b *Built) { b.ro.RegisterResource(b.tried(dormant(full))) })
	b.add(kind+" router SetURLHandlerFor", func(b *Built) { b.ro.SetURLHandlerFor("GET", full, tagHandler("bad")) })
	b.add(kind+" router SetImplementationAt", func(b *Built) { b.ro.SetImplementationAt(full, theGet) })
	b.add(kind+" router RegisterResourceUnder", func(b *Built) { b.ro.RegisterResourceUnder(full, b.tried(dormant("http:///zz-deep"))) })
	b.add(kind+" router RegisterResourceUnder secure", func(b *Built) {
		b.ro.RegisterResourceUnder("https"+full[4:], b.tried(dormant("https:///zz-deep")))
	})
	b.add(kind+" router RegisterResource secure", func(b *Built) { b.ro.RegisterResource(b.tried(dormant("https" + full[4:]))) })
	if p.path() != "" || p.host {
		b.add(kind+" router RegisterResourceUnder parent", func(b *Built) {
			b.ro.RegisterResourceUnder("http://"+p.hostPart()+p.path(), b.tried(dormant(rel)))
		})
	}
	if p.parent != nil {
		var gp = p.parent.id
		b.add(kind+" RegisterResourceUnder from above", func(b *Built) {
			b.resp[gp].RegisterResourceUnder("/"+p.T.pathStr(), b.tried(dormant(rel)))
		})
		b.add(kind+" Resource from above", func(b *Built) { b.resp[gp].Resource("http:///" + p.T.pathStr() + "/" + seg) })
	}
}

// hostCalls with the host template must all be rejected.
func (b *badList) hostCalls(kind, tmpl string) {
	var u = "http://" + tmpl
	b.add(kind+" Host", func(b *Built) { b.ro.Host(u) })
	b.add(kind+" HostUsingConfig", func(b *Built) { b.ro.HostUsingConfig(u, nm.Config{SubtreeHandler: true}) })
	b.add(kind+" RegisterHost", func(b *Built) { b.ro.RegisterHost(b.triedHost(nm.NewDormantHost(u))) })
	b.add(kind+" RegisterHost with handler", func(b *Built) {
		var h = nm.NewDormantHost(u)
		h.SetHandlerFor("GET", tagHandler("bad"))
		h.Resource("zz-bad").SetHandlerFor("GET", tagHandler("bad"))
		b.ro.RegisterHost(b.triedHost(h))
	})
	b.add(kind+" Resource", func(b *Built) { b.ro.Resource(u + "/zz-bad") })
	b.add(kind+" RegisterResource", func(b *Built) { b.ro.RegisterResource(b.tried(dormant(u + "/zz-bad"))) })
	b.add(kind+" RegisterResource deep", func(b *Built) { b.ro.RegisterResource(b.tried(dormant(u + "/zz/zz-bad"))) })
	b.add(kind+" RegisterResourceUnder", func(b *Built) { b.ro.RegisterResourceUnder(u, b.tried(dormant("http:///zz-bad"))) })
	b.add(kind+" SetSharedDataAt", func(b *Built) { b.ro.SetSharedDataAt(u, "bad") })
	b.add(kind+" SetURLHandlerFor", func(b *Built) { b.ro.SetURLHandlerFor("GET", u+"/zz-bad", tagHandler("bad")) })
}

type badList struct {
	calls []badCall
}

func (b *badList) add(name string, f func(b *Built)) { b.calls = append(b.calls, badCall{name, f}) }

var malformed = []string{"", "/a//b", "//b", "//a/", "/{", "/a}", "/{}", "/{:x}", "/{a:}", "/{a:(}", "/{x}{y}", "/{x}-{x:1}", "/a{b", "/{a:[}", "/$n:", "/{a:1}{a:2}"}

// badCalls lists the calls that concern the node and must be rejected.
func (c builtSite) badCalls(n *Node) []badCall {
	var l = &badList{}
	var id = n.id
	var name = n.T.effName()

	// The name of a sibling.
	if name != "" && !n.root {
		if n.host {
			l.hostCalls("sibling's name", "$"+escName(name)+":zz.fresh")
		} else {
			l.child("sibling's name", n.parent, "$"+escName(name)+":zz-fresh")
			l.child("sibling's name, pattern", n.parent, "$"+escName(name)+`:zz{zzv:\d}`)
		}
	}
	// An equivalent template with other value names.
	if !n.T.isStatic() && len(n.T.uniqueValueNames()) == len(n.T.valueNames()) {
		var t = n.T.renamed(func(s string) string { return s + "x" })
		if t.Name == "" {
			t.Name = name
		}
		var vs = n.T.valueNames()
		if n.host {
			l.hostCalls("other value names", t.str())
		} else {
			l.child("other value names", n.parent, t.pathStr())
		}
		if len(vs) > 1 {
			var rot = n.T.renamed(func(s string) string {
				for i, v := range vs {
					if v == s {
						return vs[(i+1)%len(vs)]
					}
				}
				return s
			})
			if n.host {
				l.hostCalls("swapped value names", rot.str())
			} else {
				l.child("swapped value names", n.parent, rot.pathStr())
			}
		}
	}
	// The same template with another name.
	if !n.root {
		var t = n.T
		t.Name = "zz-name"
		var ts = []Tmpl{t}
		if n.T.Name != "" {
			t.Name = ""
			if t.effName() != n.T.Name {
				ts = append(ts, t)
			}
		}
		for _, t := range ts {
			var k = "other name"
			if t.Name == "" {
				k = "no name"
			}
			if n.host {
				l.hostCalls(k, t.str())
			} else {
				l.child(k, n.parent, t.pathStr())
			}
		}
	}
	// Names and value names of the way down to the node.
	for i, a := range n.chain() {
		if vs := a.T.uniqueValueNames(); len(vs) > 0 {
			var v = vs[0]
			if len(vs) > 1 && (id+i)%2 == 0 {
				v = vs[len(vs)-1]
			}
			var k = fmt.Sprintf("value name of %d above", len(n.chain())-1-i)
			l.child(k, n, "zz{"+escName(v)+`:\d}zz`)
			l.child(k+", named", n, "$zz-own:zz{zzq:x}{"+escName(v)+`:\d}zz`)
			l.child(k+", deep", n, "zz-fresh/zz{"+escName(v)+`:\d}zz`)
			l.add(k+", below", func(b *Built) {
				var r = dormant("http:///zz-fresh")
				for i := 0; i < id%4; i++ {
					r.Resource(fmt.Sprintf("ok%d/x", i))
				}
				r.Resource("zz{" + escName(v) + `:\d}zz`)
				if id%3 == 0 {
					r.Resource("{zzok}")
				}
				b.resp[id].RegisterResource(b.tried(r))
			})
			l.add(k+", below far", func(b *Built) {
				var r = dormant("http:///zz-fresh")
				for i := 0; i < id%4; i++ {
					r.Resource(fmt.Sprintf("ok%d/x", i))
					r.Resource(fmt.Sprintf("x/ok%d/y", i))
				}
				r.Resource("x/y/zz{" + escName(v) + "}")
				b.resp[id].RegisterResourceUnder("zz-more", b.tried(r))
			})
		}
		if nme := a.T.effName(); nme != "" && !a.root {
			var k = fmt.Sprintf("name of %d above", len(n.chain())-1-i)
			l.child(k, n, "$"+escName(nme)+":zz-fresh")
			l.child(k+", deep", n, "zz-fresh/$"+escName(nme)+":zz-x")
			l.add(k+", below", func(b *Built) {
				var r = dormant("http:///zz-fresh")
				for i := 0; i < id%4; i++ {
					r.Resource(fmt.Sprintf("ok%d/{okv:x}", i))
				}
				r.Resource("$" + escName(nme) + ":x")
				b.resp[id].RegisterResource(b.tried(r))
			})
		}
	}
	// Names twice in what's being made.
	l.child("value name twice", n, `zz{zzv:\d}/zz{zzv:\d}x`)
	l.child("name twice", n, `$zzn:zz/$zzn:zzx`)
	l.child("name twice in its own template", n, `zz{zzv:\d}-{zzv:x}`)
	// A host together with its resource.
	if n.parent == nil {
		l.add("value name of a new host", func(b *Built) { b.ro.Resource(`http://zz{zzv:\d}.fresh/{zzv:x}`) })
		l.add("value name of a new host, RegisterResource", func(b *Built) { b.ro.RegisterResource(b.tried(dormant(`http://zz{zzv:\d}.fresh/{zzv:x}`))) })
		l.add("value name of a new host, SetSharedDataAt", func(b *Built) { b.ro.SetSharedDataAt(`http://zz{zzv:\d}.fresh/a/{zzv:x}`, 1) })
		l.add("name of a new host", func(b *Built) { b.ro.Resource(`http://$zzn:zz.fresh/a/$zzn:b`) })
		l.hostCalls("wildcard host", "{zzv}")
		l.hostCalls("named wildcard host", "$zzn:{zzv}")
		l.hostCalls("malformed host", "zz{zzv.fresh")
		l.hostCalls("malformed host 2", "zz{zzv:(}.fresh")
		l.hostCalls("two wildcards in a host", "{zzv}.{zzw}.fresh")
		for _, s := range []string{"", "http://", "https:///", "zz.fresh/x", "http://zz.fresh/x"} {
			var s = s
			l.add("Host "+s, func(b *Built) { b.ro.Host(s) })
			l.add("HostUsingConfig "+s, func(b *Built) { b.ro.HostUsingConfig(s, nm.Config{}) })
			l.add("RegisterHost "+s, func(b *Built) { b.ro.RegisterHost(nm.NewDormantHost(s)) })
			l.add("RegisteredHost "+s, func(b *Built) { b.ro.RegisteredHost(s) })
		}
		for _, s := range []string{"", "http://zz.fresh", "http://zz.fresh/", "https://zz.fresh"} {
			var s = s
			l.add("router Resource "+s, func(b *Built) { b.ro.Resource(s) })
			l.add("router ResourceUsingConfig "+s, func(b *Built) { b.ro.ResourceUsingConfig(s, nm.Config{}) })
		}
		l.add("router RegisterResource nil", func(b *Built) { b.ro.RegisterResource(nil) })
		l.add("router RegisterResourceUnder nil", func(b *Built) { b.ro.RegisterResourceUnder("/zz", nil) })
		l.add("RegisterHost nil", func(b *Built) { b.ro.RegisterHost(nil) })
		l.add("router WrapRequestPasser", func(b *Built) { b.ro.WrapRequestPasser() })
		l.add("router WrapRequestPasser nil", func(b *Built) { b.ro.WrapRequestPasser(nil) })
		for _, s := range malformed {
			var s = s
			l.add("router Resource "+s, func(b *Built) { b.ro.Resource(s) })
			l.add("router SetSharedDataAt "+s, func(b *Built) { b.ro.SetSharedDataAt(s, 1) })
			l.add("router Resource with host "+s, func(b *Built) { b.ro.Resource("http://zz.fresh" + s) })
			if s != "" {
				l.add("router RegisterResourceUnder "+s, func(b *Built) { b.ro.RegisterResourceUnder("http://zz.fresh"+s, b.tried(dormant("zz"))) })
			}
		}
		l.add("RegisterResourceUnder other host", func(b *Built) {
			b.ro.RegisterResourceUnder("http://zy.fresh/a", b.tried(dormant("http://zz.fresh/a/b")))
		})
		l.add("RegisterResourceUnder other path", func(b *Built) {
			b.ro.RegisterResourceUnder("http://zz.fresh/b", b.tried(dormant("http://zz.fresh/a/b")))
		})
		l.add("RegisterResourceUnder without the host", func(b *Built) {
			b.ro.RegisterResourceUnder("/a", b.tried(dormant("http://zz.fresh/a/b")))
		})
	}
	// Registering again.
	if n.host {
		l.add("again RegisterHost", func(b *Built) { b.ro.RegisterHost(b.resp[id].(*nm.Host)) })
		l.add("again RegisterHost elsewhere", func(b *Built) { nm.NewRouter().RegisterHost(b.resp[id].(*nm.Host)) })
	} else {
		l.add("again router RegisterResource", func(b *Built) { b.ro.RegisterResource(b.resp[id].(*nm.Resource)) })
		l.add("again router RegisterResource elsewhere", func(b *Built) { nm.NewRouter().RegisterResource(b.resp[id].(*nm.Resource)) })
		l.add("again router RegisterResourceUnder", func(b *Built) { nm.NewRouter().RegisterResourceUnder("/zz", b.resp[id].(*nm.Resource)) })
		l.add("again RegisterResource elsewhere", func(b *Built) { dormant("http:///zz").RegisterResource(b.resp[id].(*nm.Resource)) })
		l.add("again RegisterResourceUnder elsewhere", func(b *Built) {
			nm.NewDormantHost("http://zz.fresh").RegisterResourceUnder("/zz", b.resp[id].(*nm.Resource))
		})
		if n.parent != nil {
			var top = n.top().id
			l.add("again RegisterResource top", func(b *Built) { b.resp[top].RegisterResource(b.resp[id].(*nm.Resource)) })
			l.add("again RegisterResourceUnder top", func(b *Built) { b.resp[top].RegisterResourceUnder("/zz", b.resp[id].(*nm.Resource)) })
		}
	}
	// Another configuration.
	if c.explicit(id) {
		var u, full = n.relURL(), n.fullURL()
		var with = func(k string, cfg nm.Config) {
			switch {
			case n.host:
				l.add(k+" HostUsingConfig", func(b *Built) { b.ro.HostUsingConfig(full, cfg) })
			default:
				l.add(k+" router ResourceUsingConfig", func(b *Built) { b.ro.ResourceUsingConfig(full, cfg) })
				if n.root {
					return
				}
				var pid = n.parent.id
				l.add(k+" ResourceUsingConfig", func(b *Built) { b.resp[pid].ResourceUsingConfig(u, cfg) })
				l.add(k+" RegisterResource", func(b *Built) { b.resp[pid].RegisterResource(b.tried(nm.NewDormantResourceUsingConfig(u, cfg))) })
				l.add(k+" router RegisterResource", func(b *Built) { b.ro.RegisterResource(b.tried(nm.NewDormantResourceUsingConfig(full, cfg))) })
			}
		}
		if !n.C.Sub {
			with("subtree", nm.Config{SubtreeHandler: true})
		}
		if !n.C.lenUnc() {
			with("unclean", nm.Config{LenientOnUncleanPath: true})
			with("as is", nm.Config{HandlesThePathAsIs: true})
		}
		if n.Sec && !n.C.RedirIns {
			with("redirects", nm.Config{RedirectsInsecureRequest: true})
		}
		if !n.C.Strict && !n.root {
			with("strict", nm.Config{StrictOnTrailingSlash: true})
		}
		if !n.C.lenTS() && !n.root {
			with("lenient", nm.Config{LenientOnTrailingSlash: true})
		}
		// Another scheme or trailing slash.
		var other = *n
		other.Sec = !n.Sec
		var us = []struct{ k, rel, full string }{{"scheme", other.relURL(), other.fullURL()}}
		if !n.C.lenTS() && !n.root {
			other.Sec, other.TS = n.Sec, !n.TS
			us = append(us, struct{ k, rel, full string }{"slash", other.relURL(), other.fullURL()})
		}
		for _, o := range us {
			var o = o
			if n.host {
				l.add(o.k+" Host", func(b *Built) { b.ro.Host(o.full) })
				l.add(o.k+" HostUsingConfig", func(b *Built) { b.ro.HostUsingConfig(o.full, nm.Config{}) })
				l.add(o.k+" RegisteredHost", func(b *Built) { b.ro.RegisteredHost(o.full) })
			} else {
				l.add(o.k+" router Resource", func(b *Built) { b.ro.Resource(o.full) })
				l.add(o.k+" router RegisteredResource", func(b *Built) { b.ro.RegisteredResource(o.full) })
				if !n.root {
					var pid = n.parent.id
					l.add(o.k+" Resource", func(b *Built) { b.resp[pid].Resource(o.rel) })
					l.add(o.k+" RegisteredResource", func(b *Built) { b.resp[pid].RegisteredResource(o.rel) })
					l.add(o.k+" RegisterResource", func(b *Built) { b.resp[pid].RegisterResource(b.tried(dormant(o.rel))) })
					l.add(o.k+" router RegisterResource with handler", func(b *Built) {
						var r = dormant(o.full)
						r.SetHandlerFor("GET", tagHandler("bad"))
						b.ro.RegisterResource(b.tried(r))
					})
					l.add(o.k+" SetPathHandlerFor", func(b *Built) { b.resp[pid].SetPathHandlerFor("GET", o.rel, tagHandler("bad")) })
				}
			}
			l.add(o.k+" SetSharedDataAt", func(b *Built) { b.ro.SetSharedDataAt(o.full, "bad") })
			l.add(o.k+" SetConfigurationAt", func(b *Built) { b.ro.SetConfigurationAt(o.full, nm.Config{SubtreeHandler: true}) })
			l.add(o.k+" SetURLHandlerFor", func(b *Built) { b.ro.SetURLHandlerFor("GET", o.full, tagHandler("bad")) })
			l.add(o.k+" WrapRequestHandlerAt", func(b *Built) { b.ro.WrapRequestHandlerAt(o.full, traceMw("bad")) })
			l.add(o.k+" RedirectAnyRequestAt", func(b *Built) { b.ro.RedirectAnyRequestAt(o.full, "/bad", 302) })
		}
		// Both have handlers.
		if len(n.M) > 0 {
			l.add("both have handlers", func(b *Built) {
				var r = newResp(n, full)
				r.SetHandlerFor("GET", tagHandler("bad"))
				if n.host {
					b.ro.RegisterHost(b.triedHost(r.(*nm.Host)))
				} else {
					b.ro.RegisterResource(b.tried(r.(*nm.Resource)))
				}
			})
			if n.parent != nil {
				var pid = n.parent.id
				l.add("both have handlers, from the parent", func(b *Built) {
					var r = newResp(n, u)
					r.SetImplementation(theGet)
					b.resp[pid].RegisterResource(b.tried(r.(*nm.Resource)))
				})
			}
		}
	}
	// Trees that conflict below.
	for i, k := range n.descendants() {
		if i < 4 {
			c.mergeCalls(l, n, k)
		}
	}
	// Templates that don't belong to the place.
	l.add("other host", func(b *Built) { b.resp[id].RegisterResource(b.tried(dormant("http://other.zz/zz-fresh"))) })
	l.add("other host, under", func(b *Built) {
		b.resp[id].RegisterResourceUnder("zz", b.tried(dormant("http://other.zz/zz/zz-fresh")))
	})
	l.add("host in a template", func(b *Built) { b.resp[id].Resource("http://other.zz/zz-fresh") })
	l.add("host in a template, config", func(b *Built) { b.resp[id].ResourceUsingConfig("http://other.zz/zz-fresh", nm.Config{}) })
	l.add("host in a template, SharedDataAt", func(b *Built) { b.resp[id].SetSharedDataAt("http://other.zz/zz-fresh", 1) })
	l.add("root in a responder", func(b *Built) { b.resp[id].RegisterResource(b.tried(dormant("http:///"))) })
	l.add("root in a responder, getter", func(b *Built) { b.resp[id].Resource("/") })
	l.add("root in a responder, getter with scheme", func(b *Built) { b.resp[id].Resource("http:///") })
	l.add("root in a responder, config", func(b *Built) { b.resp[id].ResourceUsingConfig("/", nm.Config{}) })
	l.add("root in a responder, lookup", func(b *Built) { b.resp[id].RegisteredResource("/") })
	if n.parent != nil {
		l.add("other path", func(b *Built) { b.resp[id].RegisterResource(b.tried(dormant("http:///zzz/zz-fresh"))) })
		l.add("other path, long", func(b *Built) {
			b.resp[id].RegisterResource(b.tried(dormant("http://" + n.hostPart() + n.parent.path() + "/zzz/zz-fresh")))
		})
		l.add("short path", func(b *Built) {
			if n.parent.parent == nil {
				b.resp[id].RegisterResource(b.tried(dormant("http:///zzz/zz-fresh")))
			} else {
				b.resp[id].RegisterResource(b.tried(dormant("http:///" + n.chain()[1].T.pathStr() + "/zz-fresh")))
			}
		})
	}
	// A segment that differs from that of the place.
	for i, a := range n.chain() {
		if a.root {
			continue
		}
		var ts = []Tmpl{a.T}
		ts[0].Name = "zz-name"
		if a.T.Name != "" {
			var t = a.T
			if t.Name = ""; t.effName() != a.T.Name {
				ts = append(ts, t)
			}
		}
		if vs := a.T.uniqueValueNames(); len(vs) > 0 {
			var t = a.T.renamed(func(s string) string {
				if s == vs[len(vs)-1] {
					return s + "x"
				}
				return s
			})
			if t.Name == "" {
				t.Name = a.T.effName()
			}
			ts = append(ts, t)
		}
		for k, t := range ts {
			var host, path = n.hostPart(), ""
			for j, c := range n.chain()[1:] {
				if j+1 == i {
					path += "/" + t.pathStr()
				} else {
					path += "/" + c.T.pathStr()
				}
			}
			if a.host {
				host = t.str()
			}
			var kind = fmt.Sprintf("changed segment %d/%d.%d", i, len(n.chain()), k)
			l.add(kind, func(b *Built) { b.resp[id].RegisterResource(b.tried(dormant("http://" + host + path + "/zz-fresh"))) })
			l.add(kind+", deep", func(b *Built) {
				b.resp[id].RegisterResource(b.tried(dormant("http://" + host + path + "/zz/zz-fresh")))
			})
			l.add(kind+", under", func(b *Built) {
				b.resp[id].RegisterResourceUnder("zz", b.tried(dormant("http://"+host+path+"/zz/zz-fresh")))
			})
			if !a.host && host != "" {
				l.add(kind+", no host", func(b *Built) { b.resp[id].RegisterResource(b.tried(dormant("http://" + path + "/zz-fresh"))) })
			}
			if n.parent != nil {
				var top = n.top().id
				l.add(kind+", at the top", func(b *Built) {
					b.resp[top].RegisterResourceUnder("http://"+n.path(), b.tried(dormant("http://"+host+path+"/zz-fresh")))
				})
			}
		}
	}
	l.add("other path, under", func(b *Built) { b.resp[id].RegisterResourceUnder("zz", b.tried(dormant("http:///zzz/zz-fresh"))) })
	l.add("short path, under", func(b *Built) { b.resp[id].RegisterResourceUnder("zy/zz", b.tried(dormant("http:///zz/zz-fresh"))) })
	// Malformed templates.
	for _, s := range malformed {
		var s = s
		l.add("Resource "+s, func(b *Built) { b.resp[id].Resource(s) })
		l.add("ResourceUsingConfig "+s, func(b *Built) { b.resp[id].ResourceUsingConfig(s, nm.Config{}) })
		if strings.ContainsAny(s, "{}") {
			l.add("RegisteredResource "+s, func(b *Built) { b.resp[id].RegisteredResource(s) })
		}
		if s == "" || strings.ContainsAny(s, "{}$") {
			l.add("NewDormantResource "+s, func(b *Built) { b.resp[id].RegisterResource(dormant(s)) })
		}
		l.add("SetSharedDataAt "+s, func(b *Built) { b.resp[id].SetSharedDataAt(s, 1) })
		l.add("SetPathHandlerFor "+s, func(b *Built) { b.resp[id].SetPathHandlerFor("GET", s, tagHandler("bad")) })
		if s != "" {
			l.add("RegisterResourceUnder "+s, func(b *Built) { b.resp[id].RegisterResourceUnder(s, b.tried(dormant("http:///zz"))) })
			l.add("Resource deep "+s, func(b *Built) { b.resp[id].Resource("/zz-fresh" + s) })
		}
	}
	// Missing arguments.
	l.add("RegisterResource nil", func(b *Built) { b.resp[id].RegisterResource(nil) })
	l.add("RegisterResourceUnder nil", func(b *Built) { b.resp[id].RegisterResourceUnder("/zz", nil) })
	l.add("SetHandlerFor nil", func(b *Built) { b.resp[id].SetHandlerFor("GET", nil) })
	l.add("SetHandlerFor no method", func(b *Built) { b.resp[id].SetHandlerFor("", tagHandler("bad")) })
	l.add("SetHandlerFor blank methods", func(b *Built) { b.resp[id].SetHandlerFor(" , ", tagHandler("bad")) })
	l.add("SetImplementation nil", func(b *Built) { b.resp[id].SetImplementation(nil) })
	l.add("SetRedirectHandler nil", func(b *Built) { b.resp[id].SetRedirectHandler(nil) })
	l.add("WrapRequestPasser", func(b *Built) { b.resp[id].WrapRequestPasser() })
	l.add("WrapRequestPasser nil", func(b *Built) { b.resp[id].WrapRequestPasser(nil) })
	l.add("WrapRequestHandler", func(b *Built) { b.resp[id].WrapRequestHandler() })
	l.add("WrapRequestHandler nil", func(b *Built) { b.resp[id].WrapRequestHandler(nil) })
	l.add("WrapRedirectHandler", func(b *Built) { b.resp[id].WrapRedirectHandler() })
	l.add("WrapRedirectHandler nil", func(b *Built) { b.resp[id].WrapRedirectHandler(nil) })
	for _, code := range []int{0, 200, 300, 302, 303, 307, 404, 309} {
		var code = code
		l.add(fmt.Sprint("SetPermanentRedirectCode ", code), func(b *Built) { b.resp[id].SetPermanentRedirectCode(code) })
	}
	for _, code := range []int{0, 200, 299, 400, 404, -1} {
		var code = code
		l.add(fmt.Sprint("RedirectRequestTo ", code), func(b *Built) { b.resp[id].RedirectRequestTo("/bad", code) })
		l.add(fmt.Sprint("RedirectAnyRequestTo ", code), func(b *Built) { b.resp[id].RedirectAnyRequestTo("/bad", code) })
	}
	l.add("RedirectRequestTo nowhere", func(b *Built) { b.resp[id].RedirectRequestTo("", 302) })
	l.add("RedirectAnyRequestTo nowhere", func(b *Built) { b.resp[id].RedirectAnyRequestTo("", 302) })
	l.add("redirects insecure", func(b *Built) {
		b.resp[id].ResourceUsingConfig("http:///zz-fresh", nm.Config{RedirectsInsecureRequest: true})
	})
	l.add("router redirects insecure", func(b *Built) {
		b.ro.ResourceUsingConfig("http://zz.fresh/zz-fresh", nm.Config{RedirectsInsecureRequest: true})
	})
	l.add("host redirects insecure", func(b *Built) {
		b.ro.HostUsingConfig("http://zz.fresh", nm.Config{RedirectsInsecureRequest: true})
	})
	l.add("NewDormantResourceUsingConfig redirects insecure", func(b *Built) {
		b.resp[id].RegisterResource(nm.NewDormantResourceUsingConfig("http:///zz-fresh", nm.Config{RedirectsInsecureRequest: true}))
	})
	l.add("NewDormantHostUsingConfig redirects insecure", func(b *Built) {
		b.ro.RegisterHost(nm.NewDormantHostUsingConfig("http://zz.fresh", nm.Config{RedirectsInsecureRequest: true}))
	})
	l.badArgs("", id, func(b *Built) responder { return b.resp[id] })
	// (New responders, and new children that a wildcard or pattern would match.)
	var fresh = []string{"zz-fresh"}
	if n.TS {
		fresh = append(fresh, "zz-fresh/")
	}
	fresh = append(fresh, "zz-fresh/zz-x", "$zzn:zz{zzv:x}-fresh")
	for i, s := range fresh {
		l.badArgsAt(fmt.Sprintf("new %d", i), n, "/"+s)
	}
	// No handlers to wrap.
	if len(n.M) == 0 && !n.NA {
		l.add("WrapHandlerOf without handlers", func(b *Built) { b.resp[id].WrapHandlerOf("GET", traceMw("bad")) })
		l.add("WrapHandlerOf all without handlers", func(b *Built) { b.resp[id].WrapHandlerOf("*", traceMw("bad")) })
	} else {
		l.add("WrapHandlerOf of another method", func(b *Built) { b.resp[id].WrapHandlerOf("ZZ", traceMw("bad")) })
		l.add("WrapHandlerOf with nothing", func(b *Built) { b.resp[id].WrapHandlerOf("*") })
		if len(n.M) > 0 {
			l.add("WrapHandlerOf with nil", func(b *Built) { b.resp[id].WrapHandlerOf(n.M[0], nil) })
		}
		l.add("WrapHandlerOf no method", func(b *Built) { b.resp[id].WrapHandlerOf("", traceMw("bad")) })
	}
	return l.calls
}

// badArgs are rejected wraps of which a part could be made.
func (b *badList) badArgs(kind string, id int, of func(b *Built) responder) {
	var bad, redirect = traceMw("bad"), func(h nm.RedirectHandler) nm.RedirectHandler {
		return func(w http.ResponseWriter, r *http.Request, url string, code int, args *nm.Args) bool {
			w.Header().Set("Location", "/bad")
			w.WriteHeader(code)
			return true
		}
	}
	b.add(kind+"WrapRequestPasser and nil", func(b *Built) { of(b).WrapRequestPasser(bad, nil) })
	b.add(kind+"WrapRequestPasser nil among others", func(b *Built) { of(b).WrapRequestPasser(bad, nil, bad) })
	b.add(kind+"WrapRequestHandler and nil", func(b *Built) { of(b).WrapRequestHandler(bad, nil) })
	b.add(kind+"WrapRedirectHandler and nil", func(b *Built) { of(b).WrapRedirectHandler(redirect, nil) })
	b.add(kind+"router WrapRequestPasser and nil", func(b *Built) { b.ro.WrapRequestPasser(bad, nil) })
	var n = func(b *Built) *Node { return b.nodes[id-1] }
	b.add(kind+"WrapHandlerOf and nil", func(b *Built) { of(b).WrapHandlerOf("*", bad, nil) })
	b.add(kind+"WrapHandlerOf ! and nil", func(b *Built) { of(b).WrapHandlerOf("!", bad, nil) })
	b.add(kind+"WrapHandlerOf two and nil", func(b *Built) {
		var ms = append(n(b).allowed(), "OPTIONS")
		of(b).WrapHandlerOf(strings.Join(ms, " "), bad, nil)
	})
	b.add(kind+"WrapHandlerOf and another", func(b *Built) {
		var ms = append(n(b).allowed(), "ZZ")
		of(b).WrapHandlerOf(strings.Join(ms, ", "), bad)
	})
	b.add(kind+"WrapHandlerOf another first", func(b *Built) {
		of(b).WrapHandlerOf("ZZ, OPTIONS, "+strings.Join(n(b).allowed(), ", "), bad)
	})
}

// badArgsAt are calls at the place of a new responder below p that are rejected
// because of their other arguments.
func (b *badList) badArgsAt(kind string, p *Node, rel string) {
	var pid = p.id
	var scheme = "http"
	if (len(rel)+pid)%2 == 0 {
		scheme = "https"
	}
	var full = scheme + "://" + p.hostPart() + p.path() + rel
	if strings.Contains(rel, "/zz-x") || scheme == "https" {
		rel = scheme + "://" + rel
	}
	type at interface {
		SetSharedDataAt(string, interface{})
		SetConfigurationAt(string, nm.Config)
		SetImplementationAt(string, nm.Impl)
		WrapRequestPasserAt(string, ...nm.Middleware)
		WrapRequestHandlerAt(string, ...nm.Middleware)
		SetPermanentRedirectCodeAt(string, int)
		SetRedirectHandlerAt(string, nm.RedirectHandler)
		WrapRedirectHandlerAt(string, ...func(nm.RedirectHandler) nm.RedirectHandler)
		RedirectRequestAt(string, string, int)
		RedirectAnyRequestAt(string, string, int)
	}
	var bad = traceMw("bad")
	for _, where := range []string{"", " router"} {
		var u, where = rel, where
		if where != "" {
			u = full
		}
		var add = func(name string, f func(b *Built, a at)) {
			b.add("bad "+kind+where+" "+name, func(b *Built) {
				if where != "" {
					f(b, b.ro)
				} else {
					f(b, b.resp[pid])
				}
			})
		}
		var handler = func(name, methods string, h nm.Handler) {
			add(name, func(b *Built, a at) {
				if where != "" {
					b.ro.SetURLHandlerFor(methods, u, h)
				} else {
					b.resp[pid].SetPathHandlerFor(methods, u, h)
				}
			})
		}
		handler("handler nil", "GET", nil)
		handler("handler of no method", "", tagHandler("bad"))
		handler("handler of blank", " ,, ", tagHandler("bad"))
		handler("handler ! nil", "!", nil)
		add("impl nil", func(b *Built, a at) { a.SetImplementationAt(u, nil) })
		add("passer", func(b *Built, a at) { a.WrapRequestPasserAt(u) })
		add("passer nil", func(b *Built, a at) { a.WrapRequestPasserAt(u, bad, nil) })
		add("handler wrapper", func(b *Built, a at) { a.WrapRequestHandlerAt(u) })
		add("handler wrapper nil", func(b *Built, a at) { a.WrapRequestHandlerAt(u, nil, bad) })
		add("permanent code", func(b *Built, a at) { a.SetPermanentRedirectCodeAt(u, 302) })
		add("redirect handler nil", func(b *Built, a at) { a.SetRedirectHandlerAt(u, nil) })
		add("redirect wrapper", func(b *Built, a at) { a.WrapRedirectHandlerAt(u) })
		add("redirect wrapper nil", func(b *Built, a at) { a.WrapRedirectHandlerAt(u, nil) })
		add("redirect nowhere", func(b *Built, a at) { a.RedirectRequestAt(u, "", 302) })
		add("redirect 299", func(b *Built, a at) { a.RedirectRequestAt(u, "/bad", 299) })
		add("redirect 400", func(b *Built, a at) { a.RedirectRequestAt(u, "/bad", 400) })
		add("redirect any nowhere", func(b *Built, a at) { a.RedirectAnyRequestAt(u, "", 301) })
		add("redirect any 200", func(b *Built, a at) { a.RedirectAnyRequestAt(u, "/bad", 200) })
		add("redirects insecure", func(b *Built, a at) {
			a.SetConfigurationAt(strings.Replace(u, "https:", "http:", 1), nm.Config{RedirectsInsecureRequest: true})
		})
	}
}

// descendants returns the nodes below n.
func (n *Node) descendants() []*Node {
	var ds []*Node
	for _, k := range n.Kids {
		preorder(k, func(e *Node) { ds = append(ds, e) })
	}
	return ds
}

// same returns a new responder with the node's template and configuration.
func (c builtSite) same(n *Node) responder {
	var u = n.relURL()
	if n.host {
		u = n.hostURL()
	}
	if c.explicit(n.id) {
		return newResp(n, u)
	}
	if n.host {
		return nm.NewDormantHost(u)
	}
	return dormant(u)
}

// mergeCalls register a tree in the place of n that conflicts at k.
func (c builtSite) mergeCalls(l *badList, n, k *Node) {
	var way = k.chain()[len(n.chain()):]
	var merge = func(kind string, conflict func(parent responder)) {
		for _, takes := range []bool{false, true} {
			var takes = takes
			if takes && (len(n.M) > 0 || kind == "subtree") {
				// (The existing ones go to the new responder then.)
				continue
			}
			l.add(fmt.Sprintf("merge %s at %d down, takes over %v", kind, len(way), takes), func(b *Built) {
				var top = c.same(n)
				var r = top
				var fresh = func() {
					for i := 0; i < 3; i++ {
						r.Resource(fmt.Sprintf("zz-m%d", i)).SetHandlerFor("GET", tagHandler("bad"))
					}
				}
				for _, e := range way[:len(way)-1] {
					if takes && len(e.parent.M) == 0 {
						r.SetHandlerFor("GET", tagHandler("bad"))
					}
					fresh()
					var kr = c.same(e)
					r.RegisterResource(kr.(*nm.Resource))
					r = kr
				}
				if takes && len(k.parent.M) == 0 {
					r.SetHandlerFor("GET", tagHandler("bad"))
				}
				fresh()
				conflict(r)
				switch {
				case n.host:
					b.ro.RegisterHost(b.triedHost(top.(*nm.Host)))
				case n.root:
					b.ro.RegisterResource(b.tried(top.(*nm.Resource)))
				default:
					b.resp[n.parent.id].RegisterResource(b.tried(top.(*nm.Resource)))
				}
			})
		}
	}
	if len(k.M) > 0 {
		merge("both have handlers", func(p responder) {
			var r = c.same(k)
			r.SetHandlerFor("GET", tagHandler("bad"))
			p.RegisterResource(r.(*nm.Resource))
		})
	}
	if name := k.T.effName(); name != "" {
		merge("sibling's name", func(p responder) { p.Resource("$" + escName(name) + ":zz-fresh") })
	}
	var t = k.T
	t.Name = "zz-name"
	merge("other name", func(p responder) { p.Resource(t.pathStr()) })
	if c.explicit(k.id) {
		var o = *k
		o.Sec = !k.Sec
		merge("scheme", func(p responder) { p.Resource(o.relURL()) })
		if !k.C.Sub {
			merge("subtree", func(p responder) { p.ResourceUsingConfig(k.relURL(), nm.Config{SubtreeHandler: true}) })
		}
	}
}

func genB02(g *G) caseB02 {
	var c = caseB02{builtSite: g.builtSite(fullOpt(g))}
	var all = c.Site.index()
	for i := g.rng(1, 8); i > 0; i-- {
		var n = pick(g, all)
		var calls = c.badCalls(n)
		var k = g.intn(len(calls))
		if g.bit() {
			// A kind first.
			var kinds []string
			var of = map[string][]int{}
			for i, c := range calls {
				var kind = strings.SplitN(c.name, " ", 2)[0]
				if of[kind] == nil {
					kinds = append(kinds, kind)
				}
				of[kind] = append(of[kind], i)
			}
			k = pick(g, of[pick(g, kinds)])
		}
		c.Bads = append(c.Bads, Bad{N: n.id, Call: calls[k].name})
	}
	c.Ext = pick(g, all).id
	for i := g.rng(1, 4); i > 0; i-- {
		c.Reqs = append(c.Reqs, g.request(c.Site, fullReq()))
	}
	return c
}

// dumpUsed leaves out a root resource that has nothing.
func (b *Built) dumpUsed() []string {
	var d []string
	for _, s := range dump(b.ro) {
		if b.site.Root == nil && strings.HasPrefix(s, " = ") {
			continue
		}
		d = append(d, s)
	}
	return d
}

func checkB02(c caseB02, x *Ctx) error {
	var b, d = c.build(), c.build()
	if err := b.fill(); err != nil {
		return err
	}
	if err := d.fill(); err != nil {
		return err
	}
	urlOf = map[*nm.Resource]string{}
	defer func() { urlOf = nil }()
	var done []string
	for _, bad := range c.Bads {
		var n = b.nodes[bad.N-1]
		var call *badCall
		for _, k := range c.badCalls(n) {
			if k.name == bad.Call {
				var k = k
				call = &k
				break
			}
		}
		if call == nil {
			continue
		}
		x.judge()
		x.nontrivial()
		x.class(strings.SplitN(call.name, " ", 3)[0])
		b.failed = nil
		if err := try(func() { call.f(b) }); err == nil {
			return fmt.Errorf("at %s: %q has been accepted", b.nodeName(n), call.name)
		} else if isCrash(err) {
			return fmt.Errorf("at %s: %q crashes: %v", b.nodeName(n), call.name, err)
		}
		done = append(done, fmt.Sprintf("%q at #%d", call.name, n.id))
		if err := b.checkGiven(); err != nil {
			return fmt.Errorf("at %s: %q has panicked, but %v", b.nodeName(n), call.name, err)
		}
		if df := diffStrings(d.dumpUsed(), b.dumpUsed()); df != "" {
			return fmt.Errorf("at %s: %q has panicked and changed the tree: %s", b.nodeName(n), call.name, df)
		}
	}
	var ask = func(when string, reqs []Req) error {
		for _, q := range reqs {
			var r1, err = send(d.ro, q)
			if err != nil {
				return err
			}
			r2, err := send(b.ro, q)
			if err != nil {
				return err
			}
			x.judge()
			if err := sameOutcome(r1, r2); err != nil {
				return fmt.Errorf("%s %s, without and with them %+v: %v", when, strings.Join(done, ", "), q, err)
			}
		}
		return nil
	}
	if err := ask("after", c.Reqs); err != nil {
		return err
	}
	if err := b.checkTree(); err != nil && b.site.Root != nil {
		return fmt.Errorf("after %s: %v", strings.Join(done, ", "), err)
	}
	var e = b.nodes[c.Ext-1]
	for _, t := range []*Built{d, b} {
		var err = try(func() {
			var r = t.resp[e.id].Resource("zz-ext")
			r.SetHandlerFor("GET", tagHandler("ext"))
			r.Resource("$zz-name:{zzv}").SetHandlerFor("GET", tagHandler("ext"))
			t.ro.Resource("http://$zzn:zz{zzv}.fresh/x").SetHandlerFor("GET", tagHandler("host"))
		})
		if err != nil {
			return fmt.Errorf("%s can't be extended after %s: %v", b.nodeName(e), strings.Join(done, ", "), err)
		}
	}
	if df := diffStrings(d.dumpUsed(), b.dumpUsed()); df != "" {
		return fmt.Errorf("the tree extended after %s is another one: %s", strings.Join(done, ", "), df)
	}
	return ask("extended after", c.Reqs)
}

func init() {
	register("B02", opts{
		quick: 60000, thorough: 600000,
		rule:   "a conflicting or malformed call has been made (1-8 in a case, at any responder of the tree, drawn from up to several hundred kinds of calls that the place allows)",
		assume: []string{"a merge of trees that fails at a descendant isn't made", "Router.ResourceUsingConfig isn't called with the name of another host", "a root resource made by the router for a rejected path isn't told from none"},
	}, genB02, checkB02)
}
