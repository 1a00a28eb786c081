package main

// Templates: T01 - T05.

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	nm "github.com/shohruhadham/nanomux"
)

var tnames = []string{"id", "name", "v1", "a:b", "n{x}", "ключ", "a-b", "x y", "::", "key", "{k}"}
var tmplNames = []string{"home", "x:y", "a b", "имя", "n1", ":", "n:", "id", "a:b:c", "::", ":n:", "ab:c:d:e", "имя:x:"}

// freeTmpl draws any well-formed template.
func (g *G) freeTmpl(rich, repeats bool) Tmpl {
	var t Tmpl
	switch g.weighted(2, 6, 1) {
	case 0:
		t = lit(pick(g, append(statics, "a/b", "{", "}", "$", "$a", "a:b", "}{", "x{1,2}", "{id}", "$n:v", "-", ".", "")))
		if t.Parts[0].S == "" {
			t = lit("a")
		}
	case 1:
		var names []string
		for _, i := range g.shuffled(len(tnames)) {
			names = append(names, tnames[i])
		}
		t.Parts = g.dynParts(TOpt{rich: rich, repeats: repeats, names: names, gen: true})
		if g.prob(0.3) {
			t.Parts = mergeStatics(append([]Part{{K: "s", S: pick(g, []string{"$", "a", "{", "-", "x}y", "é", "$$"})}}, t.Parts...))
		}
		if g.prob(0.2) {
			t.Parts = mergeStatics(append(t.Parts, Part{K: "s", S: pick(g, []string{"$", "a", "}", "-", ":", "é"})}))
		}
	default:
		t.Parts = []Part{{K: "w", N: pick(g, tnames)}}
	}
	if g.prob(0.35) {
		t.Name = pick(g, tmplNames)
	}
	return t
}

// strings that concern the template.
func (g *G) subject(t *Tmpl) string {
	switch g.weighted(5, 4, 2, 1) {
	case 0:
		return g.sample(t, false)
	case 1:
		return g.nearMiss(t, false)
	case 2:
		var s = []byte(g.sample(t, g.bit()))
		for k := g.rng(1, 2); k > 0; k-- {
			var i = g.intn(len(s) + 1)
			var c = pick(g, []string{"", "a", "1", "-", "x", "Z", "\n", ".", "}", "é"})
			switch g.intn(3) {
			case 0:
				s = append(s[:i:i], append([]byte(c), s[i:]...)...)
			case 1:
				if i < len(s) {
					s = append(s[:i:i], s[i+1:]...)
				}
			default:
				if i < len(s) {
					s = append(s[:i:i], append([]byte(c), s[i+1:]...)...)
				}
			}
		}
		return strings.ToValidUTF8(string(s), "?")
	}
	return pick(g, append(wildVals, ""))
}

func tvals(m map[string]string, order []string) nm.TemplateValues {
	var vs nm.TemplateValues
	for _, n := range order {
		if v, ok := m[n]; ok {
			vs.Set(n, v)
		}
	}
	return vs
}

// parseOrPanic returns the value Parse has panicked with.
func parsePanics(s string) (v interface{}) {
	defer func() { v = recover() }()
	nm.Parse(s)
	return nil
}

// ---------------------------------------------------------------------------
// T01.

type caseT01 struct {
	Kind string // "ok", "bad", "any"
	T    *Tmpl  `json:",omitempty"`
	Str  string
	Want string `json:",omitempty"` // of "bad"
	Why  string `json:",omitempty"`
}

var sentinels = map[string]error{
	"invalid": nm.ErrInvalidTemplate,
	"pattern": nm.ErrDifferentPattern,
	"repeat":  nm.ErrRepeatedWildcardName,
	"another": nm.ErrAnotherWildcardName,
	"regexp":  nil,
}

// renderAny writes the template in one of the possible ways: a repeated value
// with or without its pattern.
func (g *G) renderAny(t *Tmpl) string {
	if g.bit() {
		return t.render(true)
	}
	return t.render(false)
}

var (
	badRegexps = []string{"(", "[z-a]", "a)", "x)|(y", "a**", "(?z)", "x(?P<n", "b++?*", "(a|b", "a{2,1}", "(?:"}
	alphabet   = []string{
		"{", "}", ":", "$", `\`, "[", "]", "(", ")", "|", "^", "*", "+", "?", "a", "b", "1", "-", "/", ".", "é", "{a}", "{b:", `\{`, `\}`, `\:`, `\$`, `\d`, "{a:x}", ",", " ", "\xff", "[^]", "[]]",
	}
)

func genT01(g *G) caseT01 {
	switch g.weighted(5, 4, 4) {
	case 0:
		var t = g.freeTmpl(true, true)
		return caseT01{Kind: "ok", T: &t, Str: g.renderAny(&t)}
	case 1:
		var c = caseT01{Kind: "bad", Want: "invalid"}
		var pre, post = "", ""
		// Well-formed surroundings without values.
		if g.bit() {
			pre = pick(g, []string{"a", "a-", `\{x`, `\$`, "$n:", "$n:a", "é/"})
		}
		if g.bit() {
			post = pick(g, []string{"a", "-b", `\}`, "-$", "{zz:x|y}", "-{zz:[a-z]{2}}"})
		}
		switch g.intn(13) {
		case 12:
			var n1, n2 = escName(pick(g, tnames)), escName(pick(g, tnames))
			c.Str, c.Why = pre+"{"+n1+"{"+n2+pick(g, []string{":x}}", ":x}", ":x}}" + post, "", "}", ":"})+pick(g, []string{"", "-"}), "open brace in a value name"
		case 0:
			c.Str, c.Why = pick(g, []string{"", "$", "$n", "$n:", `$n\:`, `$a\:b:`, "$name", `\$n:}`}), "no content"
			return c
		case 1:
			c.Str, c.Why = pre+"}"+post, "unescaped }"
		case 2:
			c.Str, c.Why = pre+post+"{x", "not closed"
		case 3:
			c.Str, c.Why = pre+post+"{x:"+pick(g, []string{`\d+`, "a{2}", `[}]`, `x\}`, "[a", ""}), "not closed"
		case 4:
			c.Str, c.Why = pre+"{}"+post, "no value name"
		case 5:
			c.Str, c.Why = pre+"{:"+g.pattern(true, false)+"}"+post, "no value name"
		case 6:
			c.Str, c.Why = pre+"{x:}"+post, "no pattern"
		case 7:
			var n = pick(g, tnames)
			c.Str, c.Why = pre+"{"+escName(n)+"}"+pick(g, infixes)+"{"+escName(n)+"}"+post, "repeated wildcard"
			c.Want = "repeat"
		case 8:
			c.Str, c.Why = pre+"{w1}"+pick(g, infixes)+"{w2}"+post, "two wildcards"
			if g.bit() {
				c.Str = pre + "{w1}{q:" + g.pattern(true, false) + "}{w2}" + post
			}
			c.Want = "another"
		case 9:
			var p1, p2 = g.pattern(true, false), g.pattern(true, false)
			if p1 == p2 {
				p2 = "other"
			}
			var mid = pick(g, []string{"", "-", "{w}", "x{w}x", "{q:x}"})
			c.Str, c.Why = pre+"{v:"+p1+"}"+mid+"{v:"+p2+"}"+post, "different pattern"
			c.Want = "pattern"
		case 10:
			c.Str, c.Why = pre+"{w}"+pick(g, []string{"", "-", "{q:x}"})+"{w:"+g.pattern(true, false)+"}"+post, "regexp with the wildcard's name"
			c.Want = "repeat"
		case 11:
			c.Str, c.Why = pre+"{v:"+pick(g, badRegexps)+"}"+post, "invalid regexp"
			c.Want = "regexp"
		}
		return c
	}
	var sb strings.Builder
	for k := g.rng(0, 12); k > 0; k-- {
		sb.WriteString(pick(g, alphabet))
	}
	return caseT01{Kind: "any", Str: sb.String()}
}

func checkT01(c caseT01, x *Ctx) error {
	x.judge()
	var t, err = nm.TryToParse(c.Str)
	if (t == nil) == (err == nil) {
		return fmt.Errorf("TryToParse(%q) returned (%v, %v)", c.Str, t, err)
	}
	if pv := parsePanics(c.Str); (pv != nil) != (err != nil) {
		return fmt.Errorf("Parse(%q): panic %v, TryToParse's error is %v", c.Str, pv, err)
	}
	switch c.Kind {
	case "bad":
		x.nontrivial()
		x.class("bad: " + c.Why)
		if err == nil {
			return fmt.Errorf("TryToParse(%q) must fail: %s", c.Str, c.Why)
		}
		if s := sentinels[c.Want]; s != nil && !errors.Is(err, s) {
			return fmt.Errorf("TryToParse(%q): %s: error is %v, must be %v", c.Str, c.Why, err, s)
		}
		return nil
	case "any":
		if err != nil {
			x.class("any: rejected")
			return nil
		}
		x.class("any: accepted")
		x.nontrivial()
		var n = 0
		for _, vn := range t.ValueNames() {
			if vn == "" || !t.HasValueName(vn) {
				return fmt.Errorf("Parse(%q): value name %q", c.Str, vn)
			}
			n++
		}
		if t.IsStatic() && (n > 0 || t.HasPattern() || t.IsWildcard()) || !t.IsStatic() && n == 0 {
			return fmt.Errorf("Parse(%q): static %v with %d values", c.Str, t.IsStatic(), n)
		}
		_ = t.String() + t.Content() + t.UnescapedContent()
		for _, s := range []string{"", "a", "1", "ab", c.Str, "a-1", "\xff"} {
			var vs nm.TemplateValues
			var ok, nvs = t.Match(s, vs)
			if t.IsStatic() && ok != (s == t.UnescapedContent()) {
				return fmt.Errorf("Parse(%q) matches %q: %v", c.Str, s, ok)
			}
			if t.IsWildcard() && s != "" && (!ok || nvs.Get(t.ValueNames()[0]) != s) {
				return fmt.Errorf("Parse(%q) must match %q", c.Str, s)
			}
		}
		if t.SimilarityWith(t) != nm.TheSame {
			return fmt.Errorf("Parse(%q) isn't the same with itself", c.Str)
		}
		return nil
	}

	x.class("ok")
	if len(c.T.Parts) > 1 || c.T.Name != "" {
		x.nontrivial()
	}
	if err != nil {
		return fmt.Errorf("TryToParse(%q): %v", c.Str, err)
	}
	var bad = func(what string, got, want interface{}) error {
		return fmt.Errorf("Parse(%q).%s is %q, must be %q", c.Str, what, got, want)
	}
	if t.Name() != c.T.effName() {
		return bad("Name", t.Name(), c.T.effName())
	}
	if got, want := t.ValueNames(), c.T.valueNames(); !(len(got) == 0 && len(want) == 0) && !reflect.DeepEqual(got, want) {
		return bad("ValueNames", got, want)
	}
	for _, n := range append(tnames, "nope") {
		if got, want := t.HasValueName("another name", n), contains(c.T.valueNames(), n); got != want {
			return bad("HasValueName "+n, got, want)
		}
	}
	if t.IsStatic() != c.T.isStatic() {
		return bad("IsStatic", t.IsStatic(), c.T.isStatic())
	}
	if t.IsWildcard() != c.T.isWild() {
		return bad("IsWildcard", t.IsWildcard(), c.T.isWild())
	}
	if t.HasPattern() != c.T.hasPattern() {
		return bad("HasPattern", t.HasPattern(), c.T.hasPattern())
	}
	if c.T.isStatic() && t.UnescapedContent() != c.T.Parts[0].S {
		return bad("UnescapedContent", t.UnescapedContent(), c.T.Parts[0].S)
	}
	return nil
}

// ---------------------------------------------------------------------------
// T02, T03.

type caseMatch struct {
	T     Tmpl
	Once  bool
	Strs  []string
	Prior map[string]string `json:",omitempty"`
}

func (c *caseMatch) parse() *nm.Template { return nm.Parse(c.T.render(c.Once)) }

func (c *caseMatch) prior() nm.TemplateValues {
	var ns = []string{"other", "zz"}
	for n := range c.Prior {
		if n != "other" && n != "zz" {
			ns = append(ns, n)
		}
	}
	return tvals(c.Prior, sortedStrings(ns))
}

func genMatch(g *G) caseMatch {
	var c = caseMatch{T: g.freeTmpl(true, true), Once: g.bit()}
	for k := g.rng(1, 4); k > 0; k-- {
		c.Strs = append(c.Strs, g.subject(&c.T))
	}
	if g.prob(0.3) {
		c.Prior = map[string]string{"other": "o"}
		for _, p := range c.T.Parts {
			if p.K == "r" && g.bit() {
				c.Prior[p.N] = pick(g, patOf(p.P).yes)
			}
		}
		if g.bit() {
			// What's to be matched now may have the earlier value.
			var s strings.Builder
			for _, p := range c.T.Parts {
				switch p.K {
				case "s":
					s.WriteString(p.S)
				case "w":
					s.WriteString("w")
				default:
					if v, ok := c.Prior[p.N]; ok {
						s.WriteString(v)
					} else {
						s.WriteString(patOf(p.P).yes[0])
					}
				}
			}
			c.Strs = append(c.Strs, s.String())
		}
	}
	return c
}

func snapshot(vs nm.TemplateValues) string { return fmt.Sprintf("%d %v", len(vs), vs) }

func checkT02(c caseMatch, x *Ctx) error {
	var t = c.parse()
	for _, s := range c.Strs {
		x.judge()
		var prior = c.prior()
		var before = snapshot(prior)
		var ok, vs = t.Match(s, prior)
		if snapshot(prior) != before {
			return fmt.Errorf("%q.Match(%q) changed the passed values from %s to %s", t, s, before, snapshot(prior))
		}
		if !ok {
			x.class("no match")
			if snapshot(vs) != before {
				return fmt.Errorf("%q.Match(%q) doesn't match but returns %v, not the passed %v", t, s, vs, prior)
			}
			if len(c.Prior) > 0 {
				x.nontrivial()
			}
			continue
		}
		if !c.T.isStatic() {
			x.class("match")
			x.nontrivial()
		} else {
			x.class("static match")
		}
		var sb strings.Builder
		for _, p := range c.T.Parts {
			switch p.K {
			case "s":
				sb.WriteString(p.S)
			case "w":
				sb.WriteString(vs.Get(p.N))
			case "r":
				var v = vs.Get(p.N)
				if !inLang(p.P, v) {
					return fmt.Errorf("%q.Match(%q): the value %s=%q isn't matched by the pattern %q", t, s, p.N, v, p.P)
				}
				sb.WriteString(v)
			}
		}
		if sb.String() != s {
			return fmt.Errorf("%q.Match(%q) returned the values %v that make %q", t, s, vs, sb.String())
		}
		for n, v := range c.Prior {
			if vs.Get(n) != v {
				return fmt.Errorf("%q.Match(%q): passed value %s=%q has become %q", t, s, n, v, vs.Get(n))
			}
		}
		var names = c.T.uniqueValueNames()
		for n := range c.Prior {
			if !contains(names, n) {
				names = append(names, n)
			}
		}
		if len(vs) > len(names) {
			return fmt.Errorf("%q.Match(%q) returned too many values: %v", t, s, vs)
		}
	}
	return nil
}

func checkT03(c caseMatch, x *Ctx) error {
	var t = c.parse()
	for _, s := range c.Strs {
		var res, want = c.T.match(s, c.Prior)
		if res == mUnspec {
			x.class("left open")
			continue
		}
		x.judge()
		var ok, vs = t.Match(s, c.prior())
		if ok != (res == mYes) {
			return fmt.Errorf("%q.Match(%q, %v) returned %v", t, s, c.Prior, ok)
		}
		if !ok {
			x.class("must not match")
			continue
		}
		x.class("must match")
		if !c.T.isStatic() {
			x.nontrivial()
		}
		for n, v := range want {
			if vs.Get(n) != v {
				return fmt.Errorf("%q.Match(%q): %s is %q, must be %q", t, s, n, vs.Get(n), v)
			}
		}
		var got, err = t.TryToApply(vs, false)
		if err != nil || got != s {
			return fmt.Errorf("%q matches %q with %v, but making the string back gives %q, %v", t, s, vs, got, err)
		}
		got, err = t.TryToApply(tvals(want, c.T.uniqueValueNames()), false)
		if err != nil || got != s {
			return fmt.Errorf("%q applied to %v gives %q, %v, must be %q", t, want, got, err, s)
		}
	}
	return nil
}

// ---------------------------------------------------------------------------
// T04.

type caseT04 struct {
	T      Tmpl
	Once   bool
	Vals   map[string]string
	Ignore bool
}

func genT04(g *G) caseT04 {
	var c = caseT04{T: g.freeTmpl(true, true), Once: g.bit(), Vals: map[string]string{}, Ignore: g.bit()}
	for _, p := range c.T.Parts {
		if _, ok := c.Vals[p.N]; ok || p.K == "s" {
			continue
		}
		switch g.weighted(6, 1, 2) {
		case 0:
			if p.K == "w" {
				c.Vals[p.N] = pick(g, wildVals)
			} else {
				c.Vals[p.N] = pick(g, patOf(p.P).yes)
			}
		case 1:
		case 2:
			if p.K == "w" {
				c.Vals[p.N] = pick(g, wildVals)
				break
			}
			var pt = patOf(p.P)
			switch g.intn(3) {
			case 0:
				c.Vals[p.N] = pick(g, pt.no)
			case 1:
				c.Vals[p.N] = pick(g, pt.yes) + pick(g, []string{"!", "x", "1", " ", "\n", "-"})
			default:
				c.Vals[p.N] = pick(g, []string{"!", "x", "1", " ", "\n", "-"}) + pick(g, pt.yes)
			}
		}
	}
	if g.prob(0.3) {
		c.Vals["unrelated"] = "u"
	}
	return c
}

func checkT04(c caseT04, x *Ctx) error {
	x.judge()
	var t = nm.Parse(c.T.render(c.Once))
	var ns []string
	for n := range c.Vals {
		ns = append(ns, n)
	}
	var vs = tvals(c.Vals, sortedStrings(ns))
	var want strings.Builder
	var missing, invalid bool
	for _, p := range c.T.Parts {
		var v, ok = c.Vals[p.N]
		switch {
		case p.K == "s":
			want.WriteString(p.S)
		case !ok:
			missing = missing || !c.Ignore
		case p.K == "r" && !inLang(p.P, v):
			invalid = true
		default:
			want.WriteString(v)
		}
	}
	x.class(fmt.Sprintf("missing %v, invalid %v, ignore %v", missing, invalid, c.Ignore))
	if !c.T.isStatic() {
		x.nontrivial()
	}
	var before = snapshot(vs)
	var s, err = t.TryToApply(vs, c.Ignore)
	if snapshot(vs) != before {
		return fmt.Errorf("%q.TryToApply changed the values", t)
	}
	var desc = fmt.Sprintf("%q.TryToApply(%v, %v) returned %q, %v", t, vs, c.Ignore, s, err)
	var panicked interface{}
	var as string
	func() {
		defer func() { panicked = recover() }()
		as = t.Apply(vs, c.Ignore)
	}()
	if missing || invalid {
		if err == nil || s != "" {
			return fmt.Errorf("%s: must fail (missing %v, invalid %v)", desc, missing, invalid)
		}
		if !(missing && errors.Is(err, nm.ErrMissingValue)) && !(invalid && errors.Is(err, nm.ErrInvalidValue)) {
			return fmt.Errorf("%s: wrong error (missing %v, invalid %v)", desc, missing, invalid)
		}
		if panicked == nil {
			return fmt.Errorf("%s: Apply doesn't panic", desc)
		}
		return nil
	}
	if err != nil || s != want.String() {
		return fmt.Errorf("%s: must be %q", desc, want.String())
	}
	if panicked != nil || as != s {
		return fmt.Errorf("%s: Apply returned %q, panic %v", desc, as, panicked)
	}
	return nil
}

// ---------------------------------------------------------------------------
// T05.

type caseT05 struct {
	A, B Tmpl
	Strs []string
	Name string // set later
}

func (t Tmpl) clone() Tmpl {
	t.Parts = append([]Part(nil), t.Parts...)
	return t
}

func genT05(g *G) caseT05 {
	var c caseT05
	c.A = g.freeTmpl(true, true)
	c.B = c.A.clone()
	for k := g.weighted(2, 5, 2); k > 0; k-- {
		switch g.intn(5) {
		case 0:
			c.B.Name = pick(g, append(tmplNames, "", ""))
		case 1:
			var i = g.intn(len(c.B.Parts))
			if c.B.Parts[i].K != "s" {
				var n = pick(g, append(tnames, "fresh"))
				if old := c.B.Parts[i].N; !contains(c.B.valueNames(), n) {
					for k := range c.B.Parts {
						if c.B.Parts[k].K != "s" && c.B.Parts[k].N == old {
							c.B.Parts[k].N = n
						}
					}
				}
			}
		case 2:
			var i = g.intn(len(c.B.Parts))
			switch c.B.Parts[i].K {
			case "s":
				c.B.Parts[i].S = pick(g, []string{c.B.Parts[i].S + "x", "q" + c.B.Parts[i].S, "other"})
			case "r":
				var p = g.pattern(true, false)
				for k := range c.B.Parts {
					if c.B.Parts[k].K == "r" && c.B.Parts[k].N == c.B.Parts[i].N {
						c.B.Parts[k].P = p
					}
				}
			}
		case 3:
			if len(c.B.Parts) > 1 {
				var i = g.intn(len(c.B.Parts))
				c.B.Parts = mergeStatics(append(c.B.Parts[:i:i], c.B.Parts[i+1:]...))
			}
		case 4:
			c.B = g.freeTmpl(true, true)
		}
	}
	for k := g.rng(1, 3); k > 0; k-- {
		c.Strs = append(c.Strs, g.subject(&c.A))
	}
	c.Name = pick(g, append(tmplNames, "", "other", "a:b", ":", "x::y:", "{n}", "$n", "é"))
	return c
}

// checkNamed sets the template's name, and then clears the template.
func (c *caseT05) checkNamed(ast *Tmpl, x *Ctx) error {
	var t, same = nm.Parse(ast.str()), nm.Parse(ast.str())
	x.judge()
	t.SetName(c.Name)
	if t.Name() != c.Name {
		return fmt.Errorf("the name of %q is set to %q, but it's %q", ast.str(), c.Name, t.Name())
	}
	var want = nm.DifferentNames
	if same.Name() == c.Name {
		want = nm.TheSame
	}
	if a, b := t.SimilarityWith(same), same.SimilarityWith(t); a != want || b != want {
		return fmt.Errorf("similarity of %q named %q is %d, %d, must be %d", ast.str(), c.Name, a, b, want)
	}
	if !reflect.DeepEqual(t.ValueNames(), same.ValueNames()) || t.IsStatic() != same.IsStatic() || t.IsWildcard() != same.IsWildcard() || t.HasPattern() != same.HasPattern() || t.UnescapedContent() != same.UnescapedContent() {
		return fmt.Errorf("%q named %q is another template", ast.str(), c.Name)
	}
	for _, s := range c.Strs {
		var ok, vs = t.Match(s, nil)
		var ok2, vs2 = same.Match(s, nil)
		if ok != ok2 || snapshot(vs) != snapshot(vs2) {
			return fmt.Errorf("%q named %q matches %q: %v %v, must be %v %v", ast.str(), c.Name, s, ok, vs, ok2, vs2)
		}
	}
	if c.Name != "" {
		var t2, err = nm.TryToParse(t.String())
		if err != nil || t2.Name() != c.Name || t2.UnescapedContent() != t.UnescapedContent() && !t.HasPattern() {
			return fmt.Errorf("%q named %q has the string %q, which is parsed as %v, %v", ast.str(), c.Name, t, t2, err)
		}
	}
	t.Clear()
	if ok, vs := t.Match("a", nil); t.Name() != "" || t.String() != "" || t.Content() != "" || t.UnescapedContent() != "" || len(t.ValueNames()) > 0 || t.HasPattern() || t.IsStatic() || t.IsWildcard() || ok || len(vs) > 0 {
		return fmt.Errorf("%q is cleared, but it's %q", ast.str(), t)
	}
	return nil
}

// unescaped is the content as it is, without patterns.
func (t *Tmpl) unescaped() string {
	var s string
	for _, p := range t.Parts {
		if p.K == "s" {
			s += p.S
		} else {
			s += "{" + p.N + "}"
		}
	}
	return s
}

func similarity(a, b *Tmpl) nm.Similarity {
	switch {
	case a.shape() != b.shape():
		return nm.Different
	case !reflect.DeepEqual(a.valueNames(), b.valueNames()):
		return nm.DifferentValueNames
	case a.effName() != b.effName():
		return nm.DifferentNames
	}
	return nm.TheSame
}

var simErrs = map[nm.Similarity]error{
	nm.Different: nm.ErrDifferentTemplates, nm.DifferentValueNames: nm.ErrDifferentValueNames,
	nm.DifferentNames: nm.ErrDifferentNames, nm.TheSame: nil,
}

func checkT05(c caseT05, x *Ctx) error {
	var a, b = nm.Parse(c.A.str()), nm.Parse(c.B.str())
	x.judge()
	var want = similarity(&c.A, &c.B)
	x.class(fmt.Sprintf("similarity %d", want))
	if want != nm.Different || len(c.A.Parts) > 1 {
		x.nontrivial()
	}
	if got := a.SimilarityWith(b); got != want {
		return fmt.Errorf("similarity of %q with %q is %d, must be %d", a, b, got, want)
	}
	if got := b.SimilarityWith(a); got != want {
		return fmt.Errorf("similarity of %q with %q is %d, must be %d", b, a, got, want)
	}
	if err := want.Err(); err != simErrs[want] && !errors.Is(err, simErrs[want]) {
		return fmt.Errorf("error of the similarity %d is %v", want, err)
	}

	// The string of the template is a template that does the same.
	for _, t := range []*nm.Template{a, b} {
		var ast = &c.A
		if t == b {
			ast = &c.B
		}
		x.judge()
		var t2, err = nm.TryToParse(t.String())
		if err != nil {
			return fmt.Errorf("String() of %q is %q, which can't be parsed: %v", ast.str(), t, err)
		}
		if t2.Name() != t.Name() || !reflect.DeepEqual(t2.ValueNames(), t.ValueNames()) || t2.IsStatic() != t.IsStatic() || t2.IsWildcard() != t.IsWildcard() || t2.HasPattern() != t.HasPattern() {
			return fmt.Errorf("String() of %q is %q, which isn't the same template", ast.str(), t)
		}
		if !t.HasPattern() {
			if got := t.SimilarityWith(t2); got != nm.TheSame {
				return fmt.Errorf("%q parsed from its string has the similarity %d", t, got)
			}
			if t.String() != ast.fullStr() {
				return fmt.Errorf("String() of %q is %q", ast.fullStr(), t)
			}
		}
		if t.Name() != "" && strings.HasPrefix(t.Content(), "$") {
			// The dollar sign needs no escaping after the name.
			continue
		}
		var t3, err3 = nm.TryToParse(t.Content())
		if err3 != nil {
			return fmt.Errorf("Content() of %q is %q, which can't be parsed: %v", ast.str(), t.Content(), err3)
		}
		if t.IsStatic() && t3.Name() != "" {
			return fmt.Errorf("Content() of %q has the name: %q", ast.str(), t.Content())
		}
		if s := t.UnescapedContent(); !t.HasPattern() && s != ast.unescaped() {
			return fmt.Errorf("UnescapedContent() of %q is %q", ast.str(), s)
		}
		for _, s := range c.Strs {
			x.judge()
			var ok, vs = t.Match(s, nil)
			for _, o := range []*nm.Template{t2, t3} {
				var ok2, vs2 = o.Match(s, nil)
				if ok != ok2 || snapshot(vs) != snapshot(vs2) {
					return fmt.Errorf("%q matches %q: %v %v, but its string %q gives %v %v", ast.str(), s, ok, vs, o, ok2, vs2)
				}
			}
		}
	}
	for _, ast := range []*Tmpl{&c.A, &c.B} {
		if err := c.checkNamed(ast, x); err != nil {
			return err
		}
	}
	return nil
}

// fullStr is the string with the name the template has, even when it's taken
// from the only dynamic segment.
func (t *Tmpl) fullStr() string {
	var u = *t
	u.Name = t.effName()
	if u.Name == "" {
		return t.str()
	}
	return u.str()
}

func init() {
	const tr = "templates are drawn as syntax trees of static, regexp and wildcard segments (0-3 dynamic segments, repeated values, names, escaped characters; 20 patterns with alternatives, counted repetitions, classes with braces, inner colons) and written as strings; "
	register("T01", opts{quick: 1500000, thorough: 6000000, rule: tr + "plus malformed templates of 12 kinds with the error they must give, plus strings of template metacharacters. Non-trivial: malformed ones, well-formed ones with more than one segment or a name, and accepted random strings"}, genT01, checkT01)
	register("T02", opts{quick: 900000, thorough: 4000000, rule: tr + "each is matched against 1-5 strings: samples, near misses and edits of samples, with and without earlier values. Non-trivial: a dynamic template matched something, or values were passed to a failed match"}, genMatch, checkT02)
	register("T03", opts{quick: 900000, thorough: 3000000, rule: tr + "each is matched against 1-5 strings: samples, near misses and edits of samples; the reference matcher enumerates all the decompositions. Non-trivial: the reference demands a match of a dynamic template"}, genMatch, checkT03)
	register("T04", opts{quick: 1500000, thorough: 6000000, rule: tr + "with values that are right, missing, or wrong at the beginning or end. Non-trivial: the template has a dynamic segment"}, genT04, checkT04)
	register("T05", opts{quick: 600000, thorough: 3000000, rule: tr + "pairs of a template and its mutation. Non-trivial: the pair is similar, or the template has several segments; the name is set and the template cleared afterwards"}, genT05, checkT05)
}
