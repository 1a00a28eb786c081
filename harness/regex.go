package main

// Generated regular expressions and samples of their languages.

import (
	"hash/fnv"
	"regexp/syntax"
	"strings"
	"sync"
	"unicode/utf8"
)

var reAtoms = []string{
	"a", "b", "x", "1", "-", "_", "é", " ", "/", ":", ",", "%", "$x", `\d`, `\w`, `\.`, `\{`, `\}`, `\]`, `\[`, `\\`, `\$`, `\(`, `\|`, `\:`,
	".", `\p{L}`, `\pL`, `\x61`, `\x{62}`, "[[:alpha:]]", `\S`, `\D`, "ab", "12", `\Qa.b\E`, `\Q|(\E`, `\Q)\E`, `\Q*\E`,
}

var clsItems = []string{
	"a", "b", "x", "1", "a-c", "0-9", "}", "{", `\]`, `\}`, `\{`, `\\`, ":", "$", "(", ")", "|", "^", "[", `\d`, `\-`, ".", "*", "é", `\[`, "{}", "}{", "/",
	"[:alpha:]", "[:digit:]", "[:^space:]",
}

// class draws a character class.
func (g *G) class() string {
	var sb strings.Builder
	sb.WriteString("[")
	var neg = g.prob(0.25)
	if neg {
		sb.WriteString("^")
	}
	if g.prob(0.25) {
		sb.WriteString("]")
	}
	for k := g.rng(1, 3); k > 0; k-- {
		var it = pick(g, clsItems)
		if it == "^" && (sb.Len() == 1 || sb.String() == "[^") {
			continue
		}
		if it == "[" {
			// Not followed by a colon.
			it = "[a"
		}
		sb.WriteString(it)
	}
	if sb.Len() == 1 || sb.String() == "[^" {
		sb.WriteString("b")
	}
	if g.prob(0.15) {
		sb.WriteString("-")
	}
	sb.WriteString("]")
	return sb.String()
}

var quantifiers = []string{"", "", "", "+", "*", "?", "{2}", "{1,3}", "{2,}", "+?", "*?", "??", "{1,2}?"}

func (g *G) reSeq(depth int) string {
	var sb strings.Builder
	for k := 1 + g.weighted(4, 3, 1); k > 0; k-- {
		var atom string
		switch g.weighted(6, 3, 2) {
		case 0:
			atom = pick(g, reAtoms)
		case 1:
			atom = g.class()
		case 2:
			if depth == 0 {
				atom = "q"
				break
			}
			var in = g.reAlt(depth-1, 3)
			atom = pick(g, []string{"(?:", "(", "(?i:", "(?P<g>", "(?s:", "(?U:"}) + in + ")"
			if strings.Count(atom, "(?P<g>") > 1 {
				atom = strings.ReplaceAll(atom, "(?P<g>", "(")
			}
		}
		sb.WriteString(atom + pick(g, quantifiers))
	}
	return sb.String()
}

func (g *G) reAlt(depth, max int) string {
	var alts []string
	for k := 1 + g.weighted(5, 3, 1); k > 0; k-- {
		alts = append(alts, g.reSeq(depth))
	}
	return strings.Join(alts, "|")
}

// regex draws a pattern that is valid on its own and as a part of a template.
func (g *G) regex() string {
	var re = g.reAlt(2, 3)
	if g.prob(0.05) {
		re = pick(g, []string{"(?i)", "(?i)", "(?s)", "(?m)", "(?U)", "(?sm)", "(?i-s)"}) + re
	}
	if strings.Count(re, "(?P<g>") > 1 {
		re = strings.ReplaceAll(re, "(?P<g>", "(")
	}
	if g.prob(0.02) {
		re += pick(g, []string{`\Qa.b`, `\Q|`, `\Q)`, `\Q$`})
	}
	if strings.HasPrefix(re, "(?:") && strings.HasSuffix(re, ")") {
		re += "x" // a whole group is the same as its content with alternatives
	}
	if _, err := syntax.Parse(re, syntax.Perl); err != nil {
		return "a[b}]"
	}
	return re
}

// pattern draws a pattern of the pool, or a generated one.
func (g *G) pattern(gen, url bool) string {
	if gen && g.prob(0.4) {
		if re := g.regex(); !url || !strings.ContainsAny(re, "/%") && inLang(re, genPat(re).yes[0]) {
			return re
		}
	}
	return pick(g, pats).re
}

// ---------------------------------------------------------------------------

type rnd uint64

func (r *rnd) intn(n int) int {
	*r = *r*6364136223846793005 + 1442695040888963407
	return int(uint64(*r>>33) % uint64(n))
}

// sampleRe makes a string from a syntax tree.
func sampleRe(re *syntax.Regexp, r *rnd, sb *strings.Builder) {
	switch re.Op {
	case syntax.OpLiteral:
		sb.WriteString(string(re.Rune))
	case syntax.OpCharClass:
		if len(re.Rune) == 0 {
			return
		}
		// Prefer printable ASCII.
		for try := 0; try < 8; try++ {
			var i = r.intn(len(re.Rune)/2) * 2
			var lo, hi = re.Rune[i], re.Rune[i+1]
			if lo < ' ' && hi >= ' ' {
				lo = ' '
			}
			if hi > 0x24F && lo < 0x7F {
				hi = 0x7E
			}
			var c = lo + rune(r.intn(int(hi-lo)+1))
			if try == 7 || c >= ' ' && c < 0x250 && utf8.ValidRune(c) {
				if !utf8.ValidRune(c) {
					c = lo
				}
				sb.WriteRune(c)
				return
			}
		}
	case syntax.OpAnyChar:
		sb.WriteRune(pickR(r, []rune("ab1-é. }{x\n")))
	case syntax.OpAnyCharNotNL:
		sb.WriteRune(pickR(r, []rune("ab1-é. }{x")))
	case syntax.OpCapture, syntax.OpConcat:
		for _, s := range re.Sub {
			sampleRe(s, r, sb)
		}
	case syntax.OpAlternate:
		sampleRe(re.Sub[r.intn(len(re.Sub))], r, sb)
	case syntax.OpStar, syntax.OpPlus, syntax.OpQuest, syntax.OpRepeat:
		var lo, hi = re.Min, re.Max
		switch re.Op {
		case syntax.OpStar:
			lo, hi = 0, 2
		case syntax.OpPlus:
			lo, hi = 1, 3
		case syntax.OpQuest:
			lo, hi = 0, 1
		}
		if hi < 0 {
			hi = lo + 2
		}
		for k := lo + r.intn(hi-lo+1); k > 0; k-- {
			sampleRe(re.Sub[0], r, sb)
		}
	}
}

func pickR[T any](r *rnd, s []T) T { return s[r.intn(len(s))] }

var (
	patMu    sync.Mutex
	patCache = map[string]*pat{}
)

// genPat finds strings in and out of the pattern's language.
func genPat(re string) *pat {
	patMu.Lock()
	defer patMu.Unlock()
	if p := patCache[re]; p != nil {
		return p
	}
	var h = fnv.New64a()
	h.Write([]byte(re))
	var r = rnd(h.Sum64())
	var p = &pat{re: re}
	var tree, err = syntax.Parse(re, syntax.Perl)
	if err == nil {
		for i := 0; i < 12 && len(p.yes) < 5; i++ {
			var sb strings.Builder
			sampleRe(tree, &r, &sb)
			if s := sb.String(); inLang(re, s) && !contains(p.yes, s) {
				p.yes = append(p.yes, s)
			}
		}
	}
	var cands = []string{"", "!", "0", "é", "Q", "@@"}
	for _, y := range p.yes {
		cands = append(cands, y+"!", "!"+y, y+y, y+"\n", y+"\n!", "!\n"+y)
		if len(y) > 1 && y[len(y)-1] < 0x80 {
			cands = append(cands, y[:len(y)-1])
		}
	}
	for i := 0; i < 8 && len(p.no) < 4; i++ {
		if c := pickR(&r, cands); !inLang(re, c) {
			p.no = append(p.no, c)
		}
	}
	if len(p.yes) == 0 {
		p.yes = []string{"a"}
	}
	if len(p.no) == 0 {
		p.no = []string{"\x00"}
	}
	if len(patCache) > 20000 {
		patCache = map[string]*pat{}
	}
	patCache[re] = p
	return p
}
