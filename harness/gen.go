package main

// Generators. Every random choice is drawn from rapid.

import (
	"fmt"
	"net/netip"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

type G struct {
	t *rapid.T
	n int // counter for unique names
}

var (
	boolGen = rapid.Bool()
	intGens [64]*rapid.Generator[int]
)

func init() {
	for i := range intGens {
		intGens[i] = rapid.IntRange(0, i)
	}
}

func (g *G) bit() bool { return boolGen.Draw(g.t, "b") }

// prob is true with the probability p. It shrinks to false.
func (g *G) prob(p float64) bool {
	var lo, size = 0.0, 1.0
	for i := 0; i < 7; i++ {
		size /= 2
		if g.bit() {
			lo += size
		}
		if lo >= 1-p {
			return true
		}
		if lo+size <= 1-p {
			return false
		}
	}
	return lo >= 1-p
}

// intn draws from [0, n). It shrinks to 0.
func (g *G) intn(n int) int {
	if n <= 1 {
		return 0
	}
	if n <= 8 {
		return intGens[n-1].Draw(g.t, "i")
	}
	// Unbiased bits.
	for {
		var v, m = 0, 1
		for m < n {
			v *= 2
			m *= 2
			if g.bit() {
				v++
			}
		}
		if v < n {
			return v
		}
	}
}

func (g *G) rng(a, b int) int { return a + g.intn(b-a+1) }

func pick[T any](g *G, s []T) T { return s[g.intn(len(s))] }

func (g *G) weighted(ws ...int) int {
	var sum = 0
	for _, w := range ws {
		sum += w
	}
	var r = g.intn(sum)
	for i, w := range ws {
		if r < w {
			return i
		}
		r -= w
	}
	return len(ws) - 1
}

func (g *G) uniq(prefix string) string {
	g.n++
	return fmt.Sprintf("%s%d", prefix, g.n)
}

// shuffled returns a permutation of 0..n-1.
func (g *G) shuffled(n int) []int {
	var p = make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		var j = i + g.intn(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// ---------------------------------------------------------------------------

type pat struct {
	re  string
	yes []string
	no  []string
}

var pats = []pat{
	{`\d+`, []string{"1", "42", "007", "123456"}, []string{"x", "4x", "x4", ""}},
	{`[a-z]+`, []string{"a", "abc", "zz", "news"}, []string{"A", "a1", "1a", "é"}},
	{`5|10`, []string{"5", "10"}, []string{"51", "50", "15", "105", "1", "x"}},
	{`[a-z]{2}`, []string{"ab", "xy"}, []string{"a", "abc", "A1"}},
	{`(a|b)c?`, []string{"a", "bc", "ac"}, []string{"c", "ab", "abc", "cc"}},
	{`\d{2,4}`, []string{"12", "123", "1234"}, []string{"1", "12345", "ab"}},
	{`x|y|zz`, []string{"x", "y", "zz"}, []string{"z", "xy", "xzz", "yx"}},
	{`[^0-9]+`, []string{"ab", "-", "é!"}, []string{"a1", "1", "1a"}},
	{`[A-Z][a-z]*`, []string{"A", "Abc", "Zz"}, []string{"a", "aB", "AB"}},
	{`v\d`, []string{"v1", "v9"}, []string{"v", "v12", "1v"}},
	{`[{}]x`, []string{"{x", "}x"}, []string{"x", "{", "{}x"}},
	{`\w+`, []string{"w_1", "Ab", "9"}, []string{"-", "a b", "a-b"}},
	{`cat|category`, []string{"cat", "category"}, []string{"ca", "categor", "catt"}},
	{`[+-]?\d`, []string{"1", "-2", "+3"}, []string{"12", "+-1", "-"}},
	{`a:b|c`, []string{"a:b", "c"}, []string{"a", "a:c", "b", "a:bc"}},
	{`(?i)get`, []string{"get", "GET", "gEt"}, []string{"gets", "ge", "xget"}},
	{`\.js|\.css`, []string{".js", ".css"}, []string{"js", ".jss", "ajs"}},
	{`[a\]]+`, []string{"a", "]a", "]]"}, []string{"b", "ab"}},
	{`.{3}`, []string{"abc", "1-2"}, []string{"ab", "abcd"}},
	{`(?:ab)+|q`, []string{"ab", "abab", "q"}, []string{"aba", "qq", "abq"}},
}

// simplePats are the patterns of which the preferred match is the longest one.
var simplePats = []int{0, 1, 3, 5, 7, 8, 9, 11}

func patOf(re string) *pat {
	for i := range pats {
		if pats[i].re == re {
			return &pats[i]
		}
	}
	return genPat(re)
}

var statics = []string{
	"a", "b", "news", "about", "user", "r1", "a.b", "x-y", "_", "files", "10", "A", "é", "a b",
	"{x}", "$d", "50%", "q?", "h#t", "a+b", "a;b", "~me", "ab", "abc", "日本", "!", "(x)", "*", "a,b", "@", "a&b", "c=d", "'",
}

// statics that need no escaping anywhere.
var plainStatics = []string{"a", "b", "news", "about", "user", "r1", "x-y", "files", "ab", "abc", "10", "A"}

var infixes = []string{"-", "_", ".", "--", "at", "v", "~", "+"}

var wildVals = []string{"w", "foo", "bar1", "x.y", "hello-world", "42", "Ab", "é", "a b", "a/b", "50%", "q?x", "#", "+", "a;b=c", "..x", "日本", "news", "a", "$", "{", "}", "~", "%2F", "'", "\"", "|", "^", "[x]", "<y>"}

var plainWildVals = []string{"w", "foo", "bar1", "x.y", "hello-world", "42", "Ab", "news", "a", "q"}

// TOpt tells what templates may look like.
type TOpt struct {
	plain   bool // no characters that need escaping
	slash   bool // static segments may have a slash
	host    bool
	rich    bool // several dynamic segments
	repeats bool
	names   []string // the value names to use
	auto    bool     // unnamed templates are allowed
	gen     bool     // generated patterns and more segments
	url     bool     // patterns without slashes and percent signs
}

// partsFor draws the parts of a dynamic template.
func (g *G) dynParts(o TOpt) []Part {
	var parts []Part
	var nDyn = 1
	if o.rich {
		nDyn = 1 + g.weighted(5, 3, 2)
		if o.gen {
			nDyn = 1 + g.weighted(6, 5, 4, 2, 1)
		}
	}
	var wild = -1
	if g.prob(0.3) {
		wild = g.intn(nDyn)
	}
	var used []Part
	var names = append([]string(nil), o.names...)
	for i := 0; i < nDyn; i++ {
		if i > 0 || g.prob(0.4) {
			if i == 0 || g.prob(0.85) {
				var s = pick(g, infixes)
				parts = append(parts, Part{K: "s", S: s})
			}
		}
		if i == wild {
			if len(names) == 0 {
				break
			}
			var n = names[0]
			names = names[1:]
			parts = append(parts, Part{K: "w", N: n})
			continue
		}
		if o.repeats && len(used) > 0 && g.prob(0.35) {
			parts = append(parts, pick(g, used))
			continue
		}
		if len(names) == 0 {
			break
		}
		var p = Part{K: "r", N: names[0], P: g.pattern(o.gen, o.url)}
		names = names[1:]
		used = append(used, p)
		parts = append(parts, p)
	}
	if g.prob(0.35) {
		parts = append(parts, Part{K: "s", S: pick(g, infixes)})
	}
	return mergeStatics(parts)
}

func mergeStatics(parts []Part) []Part {
	var out []Part
	for _, p := range parts {
		if p.K == "s" && len(out) > 0 && out[len(out)-1].K == "s" {
			out[len(out)-1].S += p.S
			continue
		}
		out = append(out, p)
	}
	return out
}

// sample draws a string made by the template with the values to be found in
// it. The flag says whether the reference semantics demands the match.
func (g *G) sample(t *Tmpl, plain bool) string {
	var vals = map[string]string{}
	var sb strings.Builder
	for _, p := range t.Parts {
		switch p.K {
		case "s":
			sb.WriteString(p.S)
		case "w":
			if g.prob(0.006) {
				sb.WriteString(strings.Repeat("l", pick(g, []int{33, 65, 129, 256, 257, 300, 600, 1025})))
			} else if plain {
				sb.WriteString(pick(g, plainWildVals))
			} else {
				sb.WriteString(pick(g, wildVals))
			}
		case "r":
			if _, ok := vals[p.N]; !ok {
				vals[p.N] = pick(g, patOf(p.P).yes)
			}
			sb.WriteString(vals[p.N])
		}
	}
	return sb.String()
}

// nearMiss draws a string that looks like the template's but may not match.
func (g *G) nearMiss(t *Tmpl, plain bool) string {
	var sb strings.Builder
	var at = g.intn(len(t.Parts))
	for i, p := range t.Parts {
		switch p.K {
		case "s":
			if i == at && g.bit() {
				sb.WriteString(p.S[:len(p.S)-1])
			} else {
				sb.WriteString(p.S)
			}
			if i == at && g.bit() {
				sb.WriteString("z")
			}
		case "w":
			if plain {
				sb.WriteString(pick(g, plainWildVals))
			} else {
				sb.WriteString(pick(g, wildVals))
			}
		case "r":
			if i == at {
				sb.WriteString(pick(g, patOf(p.P).no))
			} else {
				sb.WriteString(pick(g, patOf(p.P).yes))
			}
		}
	}
	if g.prob(0.2) {
		return sb.String() + pick(g, []string{"x", "1", "-", "a"})
	}
	return sb.String()
}

// ---------------------------------------------------------------------------
// Resource trees.

// Cfg has the configuration properties that don't come from the URL.
type Cfg struct {
	Sub      bool `json:"sub,omitempty"`
	RedirIns bool `json:"redir,omitempty"`
	Strict   bool `json:"strict,omitempty"`
	LenTS    bool `json:"lents,omitempty"`
	LenUnc   bool `json:"lenunc,omitempty"`
	AsIs     bool `json:"asis,omitempty"`
}

func (c Cfg) lenTS() bool  { return c.LenTS || c.AsIs }
func (c Cfg) lenUnc() bool { return c.LenUnc || c.AsIs }

// Node is a host or a resource.
type Node struct {
	T       Tmpl     `json:"t"`
	Sec     bool     `json:"sec,omitempty"`
	TS      bool     `json:"ts,omitempty"`
	C       Cfg      `json:"c,omitempty"`
	M       []string `json:"m,omitempty"`
	NA      bool     `json:"na,omitempty"`
	Red     string   `json:"red,omitempty"`
	RedCode int      `json:"redcode,omitempty"`
	RedAny  bool     `json:"redany,omitempty"`
	PRC     int      `json:"prc,omitempty"`
	RH      bool     `json:"rh,omitempty"`
	SD      string   `json:"sd,omitempty"`
	F       bool     `json:"f,omitempty"` // its handlers do nothing and return false
	Kids    []*Node  `json:"kids,omitempty"`

	id     int
	parent *Node
	host   bool
	root   bool
}

// Site is a router's content. Root is nil when the router has only hosts.
type Site struct {
	Hosts []*Node `json:"hosts,omitempty"`
	Root  *Node   `json:"root,omitempty"`
	Mode  int     `json:"mode"`
}

func (s *Site) index() []*Node {
	var all []*Node
	var visit func(n, parent *Node)
	visit = func(n, parent *Node) {
		n.id = len(all) + 1
		n.parent = parent
		all = append(all, n)
		for _, k := range n.Kids {
			visit(k, n)
		}
	}
	for _, h := range s.Hosts {
		h.host = true
		visit(h, nil)
	}
	if s.Root != nil {
		s.Root.root = true
		visit(s.Root, nil)
	}
	return all
}

// names returns all the value names of the site.
func (s *Site) names() []string {
	var m = map[string]bool{}
	for _, n := range s.index() {
		for _, v := range n.T.valueNames() {
			m[v] = true
		}
	}
	var ns []string
	for n := range m {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

func (n *Node) top() *Node {
	for n.parent != nil {
		n = n.parent
	}
	return n
}

func (n *Node) canHandle() bool { return len(n.M) > 0 }

// chain returns the nodes from the top to n.
func (n *Node) chain() []*Node {
	var c []*Node
	for p := n; p != nil; p = p.parent {
		c = append([]*Node{p}, c...)
	}
	return c
}

// SOpt tells what a generated site may have.
type SOpt struct {
	pCrowd float64 // above the usual: many siblings

	depth      int
	width      int
	maxNodes   int
	hosts      int  // the most hosts
	noRoot     bool // no resources without a host
	plain      bool
	rich       bool
	slash      bool
	pHandler   float64
	pSub       float64
	pSec       float64
	pTS        float64
	pStrict    float64
	pLenTS     float64
	pLenUnc    float64
	pAsIs      float64
	pRedirIns  float64
	pRed       float64
	pRedAny    float64
	pNA        float64
	pPRC       float64
	pRH        float64
	pSD        float64
	methods    []string
	maxMethods int
	pStatic    float64
	pWild      float64
	allNamed   bool    // every template has a name of its own
	simple     bool    // only patterns that leave nothing open
	deep       bool    // a few long paths
	pBare      float64 // a host or the root without handlers and resources
	pF         float64
	pGen       float64 // patterns of the resources' templates are generated
	pWide      float64 // many siblings at a few places
}

var stdMethods = []string{"GET", "POST", "PUT", "DELETE", "HEAD", "PATCH"}

func (g *G) nodeProps(n *Node, o *SOpt) {
	if g.prob(o.pHandler) {
		var ms = o.methods
		if ms == nil {
			ms = stdMethods
		}
		var k = 1
		if o.maxMethods > 1 {
			k = g.rng(1, o.maxMethods)
		}
		if o.maxMethods == 0 {
			n.M = []string{"GET"}
			if g.prob(0.12) {
				n.M = []string{pick(g, manyMethods)}
			}
		} else {
			for _, i := range g.shuffled(len(ms))[:min(k, len(ms))] {
				n.M = append(n.M, ms[i])
			}
		}
		n.NA = g.prob(o.pNA)
		n.F = g.prob(o.pF)
	}
	n.Sec = g.prob(o.pSec)
	if !n.root {
		n.TS = g.prob(o.pTS)
	}
	n.C.Sub = g.prob(o.pSub)
	if n.Sec {
		n.C.RedirIns = g.prob(o.pRedirIns)
	}
	if !n.root {
		n.C.Strict = g.prob(o.pStrict)
		if !n.C.Strict {
			n.C.LenTS = g.prob(o.pLenTS)
			n.C.AsIs = g.prob(o.pAsIs)
		}
	}
	n.C.LenUnc = g.prob(o.pLenUnc)
	if g.prob(o.pRedAny) {
		n.RedAny = true
	}
	if n.RedAny || g.prob(o.pRed) {
		n.Red = pick(g, []string{
			"/moved", "/new/place/", "moved", "httpd/docs", "https", "http://other.example/x", "https://other.example", "http://other.example/y/", "/", ".well-known/x", "~u/x",
		})
		n.RedCode = pick(g, []int{301, 302, 303, 307, 308, 300, 310, 399})
	}
	if g.prob(o.pPRC) {
		n.PRC = pick(g, []int{301, 308})
	}
	n.RH = g.prob(o.pRH)
	if g.prob(o.pSD) {
		n.SD = g.uniq("data")
	}
}

type sibs struct {
	names  []string
	shapes []string
	wild   bool
}

// tmpl draws a template for a new sibling. It returns nil when the drawn one
// can't be a sibling of the others.
func (g *G) tmpl(o *SOpt, sb *sibs, vnames []string, host bool) *Tmpl {
	var t Tmpl
	switch g.weighted(int(o.pStatic*100), int((1-o.pStatic-o.pWild)*100), int(o.pWild*100)) {
	case 0:
		var s = pick(g, statics)
		if o.plain {
			s = pick(g, plainStatics)
		}
		if !host && g.prob(0.01) {
			s = strings.Repeat("k", pick(g, []int{31, 64, 128, 255, 256, 300, 1024})) + pick(g, []string{"", "a", "b"})
		}
		if o.slash && g.prob(0.15) {
			s = pick(g, []string{"a/b", "x/y/z", "a/", "/b"})
		}
		t = lit(s)
		if strings.Contains(s, "/") {
			t.Lower = g.bit()
		}
	case 1:
		t.Parts = g.dynParts(TOpt{rich: o.rich, repeats: o.rich, names: vnames, gen: !host && !o.simple && o.pGen > 0 && g.prob(o.pGen), url: true})
		if o.simple {
			for i := range t.Parts {
				if t.Parts[i].K == "r" {
					t.Parts[i].P = pats[pick(g, simplePats)].re
				}
			}
		}
		// All the occurrences of a name have the same pattern.
		var first = map[string]string{}
		for i, p := range t.Parts {
			if p.K == "r" {
				if f, ok := first[p.N]; ok {
					t.Parts[i].P = f
				} else {
					first[p.N] = p.P
				}
			}
		}
	default:
		t = Tmpl{Parts: []Part{{K: "w", N: vnames[0]}}}
	}
	if host {
		if t.isWild() {
			t.Parts = append(t.Parts, Part{K: "s", S: ".example.com"})
		} else if t.isStatic() {
			t = lit(pick(g, []string{
				"example.com", "a.example.com", "b.example.com", "localhost", "www.example.com", "example.org", "x1.test", "$h.example.com", "cash-$1.test",
			}))
			if g.prob(0.1) {
				t = lit(pick(g, []string{"[::1]", "[2001:db8::1]", "[fe80::1]"}))
			}
		} else if g.prob(0.08) {
			t.Parts = mergeStatics(append(append([]Part{{K: "s", S: "[2001:db8::"}}, t.Parts...), Part{K: "s", S: "]"}))
		} else {
			t.Parts = mergeStatics(append(t.Parts, Part{K: "s", S: pick(g, []string{".example.com", ".test"})}))
		}
	}
	if o.allNamed || g.prob(0.4) {
		t.Name = g.uniq("n")
	}
	if t.isWild() && sb.wild {
		return nil
	}
	if contains(sb.shapes, t.shape()) {
		return nil
	}
	if en := t.effName(); en != "" && contains(sb.names, en) {
		t.Name = g.uniq("n")
	}
	if en := t.effName(); en != "" {
		sb.names = append(sb.names, en)
	}
	sb.shapes = append(sb.shapes, t.shape())
	sb.wild = sb.wild || t.isWild()
	return &t
}

func (g *G) kids(n *Node, depth int, o *SOpt, left *int) {
	if depth >= o.depth || *left <= 0 {
		return
	}
	var k = g.intn(o.width + 1)
	if depth == 0 || o.deep && g.prob(0.85) {
		k = g.rng(1, o.width)
	}
	var sb sibs
	var vnames = []string{
		fmt.Sprintf("v%da", depth), fmt.Sprintf("v%db", depth), fmt.Sprintf("v%dc", depth), fmt.Sprintf("v%dd", depth),
	}
	for i := 0; i < k && *left > 0; i++ {
		var rot = g.intn(2)
		var vn = append(append([]string(nil), vnames[rot:]...), vnames[:rot]...)
		var t = g.tmpl(o, &sb, vn, false)
		if t == nil {
			continue
		}
		*left--
		var kid = &Node{T: *t}
		g.nodeProps(kid, o)
		n.Kids = append(n.Kids, kid)
		g.kids(kid, depth+1, o, left)
	}
}

const modes = 8

func (g *G) site(o SOpt) *Site {
	var s = &Site{}
	var left = o.maxNodes
	if left == 0 {
		left = 14
	}
	if o.depth > 2 && g.prob(0.12) {
		o.deep, o.depth, o.width = true, g.rng(o.depth, 10), g.rng(1, 2)
		left = max(left, 14)
	} else if g.prob(o.pWide) {
		o.depth, o.width = g.rng(1, 2), g.rng(5, 12)
		o.pStatic, o.pWild = 0.15, 0.1
		left = max(left, 16)
	}
	var nh = 0
	if o.hosts > 0 {
		nh = g.rng(0, o.hosts)
		if o.noRoot && nh == 0 {
			nh = 1
		}
	}
	var sb sibs
	var hnames = []string{"ha", "hb", "hc", "hd"}
	for i := 0; i < nh; i++ {
		var rot = g.intn(2)
		var vn = append(append([]string(nil), hnames[rot:]...), hnames[:rot]...)
		var t = g.tmpl(&SOpt{pStatic: 0.45, pWild: 0.15, rich: o.rich, allNamed: o.allNamed, plain: o.plain, simple: o.simple}, &sb, vn, true)
		if t == nil {
			continue
		}
		var h = &Node{T: *t, host: true}
		s.Hosts = append(s.Hosts, h)
		if g.prob(o.pBare) {
			continue
		}
		g.nodeProps(h, o.copy())
		g.kids(h, 0, &o, &left)
	}
	if !o.noRoot && (len(s.Hosts) == 0 || g.prob(0.6)) {
		s.Root = &Node{T: lit("/"), root: true}
		g.nodeProps(s.Root, &o)
		g.kids(s.Root, 0, &o, &left)
	}
	s.Mode = g.intn(modes)
	if o.pHandler < 1 && g.prob(0.1) {
		// The resources between the ends of the paths have nothing of
		// their own.
		for _, n := range s.index() {
			if len(n.Kids) > 0 && !n.root && !n.host && g.prob(0.85) {
				*n = Node{T: n.T, Kids: n.Kids}
			}
		}
	}
	if g.prob(0.0015+o.pCrowd) && !o.allNamed {
		g.crowd(s, &o)
	}
	g.shareNames(s)
	return s
}

// crowd adds many resources below one of the nodes.
func (g *G) crowd(s *Site, o *SOpt) {
	var n = pick(g, s.index())
	for i, k := 0, g.rng(20, 120); i < k; i++ {
		var r = &Node{T: lit(fmt.Sprintf("q%d", i))}
		if g.prob(0.5) {
			g.nodeProps(r, o)
		}
		n.Kids = append(n.Kids, r)
	}
}

// shareNames gives some of the templates a name that is the name of a value.
// Names and value names are unique apart from each other.
func (g *G) shareNames(s *Site) {
	var all = s.index()
	var names []string
	for _, n := range all {
		if n.T.Name == "" || !g.prob(0.07) {
			continue
		}
		if names == nil {
			if names = s.names(); len(names) == 0 {
				return
			}
		}
		var name = pick(g, names)
		var free = true
		for _, o := range all {
			if o.T.effName() == name {
				free = false
			}
		}
		if free {
			n.T.Name = name
		}
	}
}

// mix adds a little of what a check doesn't aim at.
func (g *G) mix(o SOpt) SOpt {
	if !g.prob(0.25) {
		return o
	}
	for _, p := range []*float64{&o.pSub, &o.pSec, &o.pTS, &o.pStrict, &o.pLenTS, &o.pLenUnc, &o.pAsIs, &o.pRed, &o.pPRC, &o.pSD, &o.pNA} {
		if *p == 0 && g.prob(0.4) {
			*p = 0.15
		}
	}
	if o.pSec > 0 && o.pRedirIns == 0 {
		o.pRedirIns = 0.3
	}
	o.slash = o.slash || g.prob(0.3)
	return o
}

func (o *SOpt) copy() *SOpt { var c = *o; return &c }

// ---------------------------------------------------------------------------
// Requests.

// Req is an HTTP request. Target is the request target as sent.
type Req struct {
	Method string `json:"method"`
	Host   string `json:"host"`
	TLS    bool   `json:"tls,omitempty"`
	Target string `json:"target"`

	// What's not to matter.
	Hdr []string `json:"hdr,omitempty"` // other headers
	Abs int      `json:"abs,omitempty"` // 1: absolute-form, 2: with the scheme https
	V10 bool     `json:"v10,omitempty"` // HTTP/1.0
	End bool     `json:"end,omitempty"` // the context has been cancelled

	Raw string `json:"raw,omitempty"` // not by a server: the RawPath of the URL
}

// Headers that have no meaning for the routing.
var headers = []string{
	"X-Forwarded-Proto: https", "X-Forwarded-Proto: http", "X-Forwarded-Ssl: on", "Forwarded: proto=https;host=example.com", "X-Forwarded-Host: example.com",
	"X-Forwarded-Host: nowhere.net", "X-Forwarded-Port: 8443", "X-HTTP-Method-Override: DELETE", "X-HTTP-Method: GET", "X-Method-Override: POST",
	"X-Original-URL: /", "X-Rewrite-URL: /news", "X-Forwarded-Prefix: /a", "Upgrade-Insecure-Requests: 1", "Connection: close", "Connection: Upgrade",
	"Upgrade: websocket", "Accept: application/json", "Origin: http://example.net", "Access-Control-Request-Method: PUT", "Referer: https://example.com/a/",
	"Cookie: a=b", "Authorization: Basic YTpi", "Content-Length: 0", "Expect: 100-continue", "X-Real-Ip: ::1", "User-Agent: curl/8", "Range: bytes=0-1",
	"If-None-Match: *", "Via: 1.1 proxy", "Content-Type: application/x-www-form-urlencoded",
}

const hexU, hexL = "0123456789ABCDEF", "0123456789abcdef"

func unreserved(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' ||
		c == '-' || c == '_' || c == '.' || c == '~'
}

// mustEscape: the characters that can't appear in a path segment as they are.
func mustEscape(c byte) bool {
	return !unreserved(c) && !strings.ContainsRune("!$&'()*+,;=:@", rune(c))
}

// encode escapes the segment. style: 0 - only what must be escaped, with
// upper case digits; 1 - what must be escaped, lower case; 2 - everything that
// isn't unreserved; 3 - some of the unreserved characters too.
func (g *G) encode(seg string, style int) string {
	var sb strings.Builder
	for i := 0; i < len(seg); i++ {
		var c = seg[i]
		var esc = mustEscape(c)
		switch style {
		case 2:
			esc = !unreserved(c)
		case 3:
			esc = esc || g.prob(0.4)
		}
		if !esc {
			sb.WriteByte(c)
			continue
		}
		var h = hexU
		if style == 1 || style == 3 && g.bit() {
			h = hexL
		}
		sb.WriteByte('%')
		sb.WriteByte(h[c>>4])
		sb.WriteByte(h[c&15])
	}
	var s = sb.String()
	if s == "." || s == ".." {
		// A segment that isn't meant to be a dot segment.
		s = strings.ReplaceAll(s, ".", "%2E")
	}
	return s
}

func encodePlain(seg string) string { return (*G)(nil).encode(seg, 0) }

// ROpt tells what a request may be like.
type ROpt struct {
	pExact   float64 // the path of an existing resource
	pTLS     float64
	pTS      float64 // trailing slash is against the resource's
	pUnclean float64
	pQuery   float64
	plain    bool
	encode   bool // any way of escaping
	methods  []string
}

// hostFor draws the request's host for the top node.
func (g *G) hostFor(s *Site, top *Node, plain bool) string {
	var h string
	switch {
	case top != nil && top.host:
		if g.prob(0.12) {
			h = g.nearMiss(&top.T, true)
		} else {
			h = g.sampleHost(&top.T)
		}
		if g.prob(0.05) {
			switch g.intn(5) {
			case 0:
				h = "www." + h
			case 1:
				h += ".net"
			case 2:
				h = "x" + h
			case 3:
				h += "."
			case 4:
				h = strings.TrimPrefix(h, "www.")
				if i := strings.IndexByte(h, '.'); i > 0 && i < len(h)-1 {
					h = h[i+1:]
				}
			}
		}
	default:
		h = pick(g, []string{"nowhere.net", "unknown", "example.net", "[::1]"})
	}
	return h
}

func (g *G) sampleHost(t *Tmpl) string {
	var s = g.sample(t, true)
	return s
}

// okHost: what can be sent in the Host header.
func okHost(h string) bool {
	if h == "" {
		return false
	}
	if len(h) > 2 && h[0] == '[' && h[len(h)-1] == ']' {
		// An IPv6 address.
		var a, err = netip.ParseAddr(h[1 : len(h)-1])
		return err == nil && a.Is6() && a.Zone() == ""
	}
	for i := 0; i < len(h); i++ {
		var c = h[i]
		if !unreserved(c) && !strings.ContainsRune("!$&'()*+,;=", rune(c)) {
			return false
		}
	}
	return true
}

// nodes for which a request can be made.
func (g *G) request(s *Site, o ROpt) Req {
	var all = s.index()
	var n = pick(g, all)
	return g.requestTo(s, n, o)
}

func (g *G) requestTo(s *Site, n *Node, o ROpt) Req {
	var r Req
	var ms = o.methods
	if ms == nil {
		ms = []string{"GET"}
	}
	r.Method = pick(g, ms)
	if o.methods == nil && len(n.M) > 0 && g.prob(0.9) {
		r.Method = pick(g, n.M)
	}
	r.TLS = g.prob(o.pTLS)
	for tries := 0; ; tries++ {
		r.Host = g.hostFor(s, n.top(), o.plain)
		if okHost(r.Host) {
			break
		}
		if tries > 5 {
			r.Host = "nowhere.net"
			break
		}
	}
	if n.top() == s.Root && g.prob(0.04) {
		r.Host = ""
	} else if g.prob(0.15) {
		r.Host += pick(g, []string{":80", ":8080", ":443", ":"})
	}

	var segs = g.segsFor(n, o)
	var ts = n.TS
	if g.prob(o.pTS) {
		ts = !ts
	}
	r.Target = g.target(segs, ts && len(segs) > 0, o)
	if g.prob(o.pQuery) {
		r.Target += "?" + pick(g, []string{"q=1", "a=b&c=d", "x=%2F%20", "", "a=/../b", "/", "?", "a;b=c", "q=a+b%zz", "u=http://x/y//z/", "&&", "_method=DELETE", "a=/"})
	}
	for g.prob(0.12) && len(r.Hdr) < 3 {
		r.Hdr = append(r.Hdr, pick(g, headers))
	}
	if r.Method != "CONNECT" && r.Host != "" && g.prob(0.06) {
		r.Abs = 1
		if g.prob(0.3) {
			r.Abs = 3
		}
	}
	r.V10 = g.prob(0.03)
	r.End = g.prob(0.03)
	return r
}

// segsFor draws the segments of a path to the node, or near it.
func (g *G) segsFor(n *Node, o ROpt) []string {
	var segs []string
	for _, c := range n.chain()[1:] {
		segs = append(segs, g.sample(&c.T, o.plain))
	}
	if !g.prob(o.pExact) {
		switch g.weighted(3, 2, 2, 2) {
		case 0: // more segments
			for k := g.rng(1, 3); k > 0; k-- {
				segs = append(segs, g.anySeg(n, o.plain))
			}
		case 1: // a changed segment
			if len(segs) > 0 {
				var i = g.intn(len(segs))
				segs[i] = g.nearMiss(&n.chain()[i+1].T, o.plain)
			} else {
				segs = append(segs, g.anySeg(n, o.plain))
			}
		case 2: // fewer
			if len(segs) > 0 {
				segs = segs[:len(segs)-1]
			}
		case 3: // another way down
			if len(segs) > 0 {
				var i = g.intn(len(segs))
				segs[i] = g.anySeg(n.chain()[i], o.plain)
			} else {
				segs = append(segs, g.anySeg(n, o.plain))
			}
		}
	}
	if g.prob(0.02) { // far below
		for k := g.rng(4, 40); k > 0; k-- {
			segs = append(segs, g.anySeg(n, o.plain))
		}
	}
	var clean []string
	for _, sg := range segs {
		if sg != "" {
			clean = append(clean, sg)
		}
	}
	segs = clean
	return segs
}

// anySeg draws a segment, often one that concerns the children of n.
func (g *G) anySeg(n *Node, plain bool) string {
	if len(n.Kids) > 0 && g.prob(0.6) {
		var k = pick(g, n.Kids)
		if g.prob(0.4) {
			return g.nearMiss(&k.T, plain)
		}
		return g.sample(&k.T, plain)
	}
	if plain {
		return pick(g, append(plainWildVals, plainStatics...))
	}
	return pick(g, append(wildVals, statics...))
}

// target renders the path.
func (g *G) target(segs []string, ts bool, o ROpt) string {
	var sb strings.Builder
	var dirty = g.prob(o.pUnclean)
	for _, s := range segs {
		sb.WriteByte('/')
		if dirty && g.prob(0.4) {
			sb.WriteString(pick(g, []string{"/", "./", "zz/../", ".//", "q/./../"}))
		}
		var style = 0
		if o.encode {
			style = g.intn(4)
		}
		sb.WriteString(g.encode(s, style))
	}
	if len(segs) == 0 {
		sb.WriteByte('/')
		if dirty && g.bit() {
			sb.WriteString(pick(g, []string{"/", "./", "../", "zz/../", ".", "..", "zz/..", "../."}))
		}
		return sb.String()
	}
	if ts {
		sb.WriteByte('/')
		if dirty && g.prob(0.3) {
			sb.WriteString(pick(g, []string{"/", "./"}))
		}
	} else if dirty && g.prob(0.2) {
		sb.WriteString(pick(g, []string{"/.", "/zz/..", "//.", "/./zz/.."}))
	}
	return sb.String()
}

func sortedStrings(ss []string) []string {
	sort.Strings(ss)
	return ss
}
