package main

// The vocabulary of the harness: templates, resource trees and requests as
// plain data, together with the reference semantics of matching a template.

import (
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
)

// Part is one segment of a template: a static string ("s"), a value with a
// regular expression ("r"), or a wildcard ("w").
type Part struct {
	K string `json:"k"`
	S string `json:"s,omitempty"`
	N string `json:"n,omitempty"`
	P string `json:"p,omitempty"`
}

// Tmpl is a template as an abstract syntax tree.
type Tmpl struct {
	Name  string `json:"name,omitempty"`
	Parts []Part `json:"parts"`
	Lower bool   `json:"lower,omitempty"` // slashes are escaped in lower case
}

func lit(s string) Tmpl { return Tmpl{Parts: []Part{{K: "s", S: s}}} }

func (t *Tmpl) isStatic() bool { return len(t.Parts) == 1 && t.Parts[0].K == "s" }
func (t *Tmpl) isWild() bool   { return len(t.Parts) == 1 && t.Parts[0].K == "w" }

func (t *Tmpl) hasPattern() bool {
	for _, p := range t.Parts {
		if p.K == "r" {
			return true
		}
	}
	return false
}

func (t *Tmpl) hasWild() bool {
	for _, p := range t.Parts {
		if p.K == "w" {
			return true
		}
	}
	return false
}

// valueNames returns the value names in their order, repetitions included.
func (t *Tmpl) valueNames() []string {
	var ns []string
	for _, p := range t.Parts {
		if p.K != "s" {
			ns = append(ns, p.N)
		}
	}
	return ns
}

func (t *Tmpl) uniqueValueNames() []string {
	var ns []string
	for _, n := range t.valueNames() {
		if !contains(ns, n) {
			ns = append(ns, n)
		}
	}
	return ns
}

// effName is the name the template has: the given name, or the name of its
// only dynamic segment.
func (t *Tmpl) effName() string {
	if t.Name != "" || t.isStatic() {
		return t.Name
	}
	var ns = t.valueNames()
	if len(ns) == 1 {
		return ns[0]
	}
	return ""
}

func escName(n string) string { return strings.ReplaceAll(n, ":", `\:`) }

func escLit(s string) string {
	return strings.NewReplacer("{", `\{`, "}", `\}`).Replace(s)
}

// str renders the template. In a repeated value, the pattern is written only
// the first time when once is true.
func (t *Tmpl) render(once bool) string {
	var sb strings.Builder
	if t.Name != "" {
		sb.WriteString("$" + escName(t.Name) + ":")
	}
	var seen = map[string]bool{}
	for i, p := range t.Parts {
		switch p.K {
		case "s":
			var s = escLit(p.S)
			if i == 0 && t.Name == "" && strings.HasPrefix(s, "$") {
				s = `\` + s
			}
			sb.WriteString(s)
		case "w":
			sb.WriteString("{" + escName(p.N) + "}")
		case "r":
			if once && seen[p.N] {
				sb.WriteString("{" + escName(p.N) + "}")
			} else {
				sb.WriteString("{" + escName(p.N) + ":" + p.P + "}")
			}
			seen[p.N] = true
		}
	}
	return sb.String()
}

func (t *Tmpl) str() string { return t.render(true) }

// pathStr renders the template as a segment of a path template.
func (t *Tmpl) pathStr() string {
	if t.Lower {
		return strings.ReplaceAll(t.str(), "/", "%2f")
	}
	return strings.ReplaceAll(t.str(), "/", "%2F")
}

// shape is the template without its name and value names. Templates with the
// same shape match the same strings.
func (t *Tmpl) shape() string {
	var sb strings.Builder
	for _, p := range t.Parts {
		sb.WriteString(p.K + ":" + p.S + p.P + "\x00")
	}
	return sb.String()
}

func contains(ss []string, s string) bool {
	for _, e := range ss {
		if e == s {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------------------
// Reference semantics of matching.

var (
	reCache  sync.Map
	reCached int64
)

func compiled(re string) *regexp.Regexp {
	if v, ok := reCache.Load(re); ok {
		return v.(*regexp.Regexp)
	}
	var r = regexp.MustCompile(re)
	if atomic.AddInt64(&reCached, 1)%30000 == 0 {
		reCache.Range(func(k, _ interface{}) bool {
			reCache.Delete(k)
			return true
		})
	}
	reCache.Store(re, r)
	return r
}

// group puts the pattern in a group. Quoted text may last to its end.
func group(pattern string) string {
	if i := strings.LastIndex(pattern, `\Q`); i >= 0 && !strings.Contains(pattern[i:], `\E`) {
		pattern += `\E`
	}
	return "(?:" + pattern + ")"
}

// inLang reports whether the whole of s is matched by the pattern.
func inLang(pattern, s string) bool {
	return compiled(`\A` + group(pattern) + `\z`).MatchString(s)
}

type decomp struct {
	vals      map[string]string
	emptyWild bool
}

const maxDecomps = 64

// decompositions returns the ways (at most maxDecomps) in which the template's
// parts can be made into s.
func (t *Tmpl) decompositions(s string, prior map[string]string) []decomp {
	var out []decomp
	var cur = map[string]string{}
	var rec func(i int, s string, ew bool)
	rec = func(i int, s string, ew bool) {
		if len(out) >= maxDecomps {
			return
		}
		if i == len(t.Parts) {
			if s == "" {
				var m = make(map[string]string, len(cur))
				for k, v := range cur {
					m[k] = v
				}
				out = append(out, decomp{m, ew})
			}
			return
		}
		var p = t.Parts[i]
		switch p.K {
		case "s":
			if strings.HasPrefix(s, p.S) {
				rec(i+1, s[len(p.S):], ew)
			}
		case "w":
			if i == len(t.Parts)-1 {
				if s != "" {
					cur[p.N] = s
				}
				rec(i+1, "", ew || s == "")
				delete(cur, p.N)
				return
			}
			for e := 0; e <= len(s); e++ {
				if e > 0 {
					cur[p.N] = s[:e]
				}
				rec(i+1, s[e:], ew || e == 0)
				delete(cur, p.N)
			}
		case "r":
			if v, ok := cur[p.N]; ok {
				if strings.HasPrefix(s, v) {
					rec(i+1, s[len(v):], ew)
				}
				return
			}
			var pv, hasPrior = prior[p.N]
			for e := 0; e <= len(s); e++ {
				if hasPrior && s[:e] != pv {
					continue
				}
				if inLang(p.P, s[:e]) {
					cur[p.N] = s[:e]
					rec(i+1, s[e:], ew)
					delete(cur, p.N)
				}
			}
		}
	}
	rec(0, s, false)
	return out
}

// greedy is the match found without looking back: the parts before the
// wildcard take from the beginning what their patterns prefer, the parts after
// it take from the end the longest they can, and the wildcard takes the rest.
func (t *Tmpl) greedy(s string, prior map[string]string) (map[string]string, bool) {
	var vals = map[string]string{}
	var set = func(n, v string) bool {
		if pv, ok := prior[n]; ok && pv != v {
			return false
		}
		if cv, ok := vals[n]; ok && cv != v {
			return false
		}
		vals[n] = v
		return true
	}
	var w = -1
	for i, p := range t.Parts {
		if p.K == "w" {
			w = i
		}
	}
	var end = len(t.Parts)
	if w >= 0 {
		end = w
	}
	for i := 0; i < end; i++ {
		var p = t.Parts[i]
		if p.K == "s" {
			if !strings.HasPrefix(s, p.S) {
				return nil, false
			}
			s = s[len(p.S):]
			continue
		}
		var re = `\A` + group(p.P)
		if w < 0 && i == len(t.Parts)-1 {
			re += `\z`
		}
		var idx = compiled(re).FindStringIndex(s)
		if idx == nil || !set(p.N, s[:idx[1]]) {
			return nil, false
		}
		s = s[idx[1]:]
	}
	for i := len(t.Parts) - 1; w >= 0 && i > w; i-- {
		var p = t.Parts[i]
		if p.K == "s" {
			if !strings.HasSuffix(s, p.S) {
				return nil, false
			}
			s = s[:len(s)-len(p.S)]
			continue
		}
		var idx = compiled(group(p.P) + `\z`).FindStringIndex(s)
		if idx == nil || !set(p.N, s[idx[0]:]) {
			return nil, false
		}
		s = s[:idx[0]]
	}
	if w >= 0 {
		if s != "" {
			vals[t.Parts[w].N] = s
		}
	} else if s != "" {
		return nil, false
	}
	return vals, true
}

type mres int

const (
	mNo mres = iota
	mYes
	mUnspec
)

// match says whether the template must match the string, must not match it, or
// whether the documentation leaves it open (there are several decompositions,
// or the only one can be found only by looking back, or the wildcard would be
// empty).
func (t *Tmpl) match(s string, prior map[string]string) (mres, map[string]string) {
	if t.isStatic() {
		if t.Parts[0].S == s {
			return mYes, nil
		}
		return mNo, nil
	}
	if t.isWild() && s != "" {
		return mYes, map[string]string{t.Parts[0].N: s}
	}
	var ds = t.decompositions(s, prior)
	if len(ds) == 0 {
		return mNo, nil
	}
	if len(ds) > 1 || ds[0].emptyWild {
		return mUnspec, nil
	}
	var g, ok = t.greedy(s, prior)
	if !ok || !sameMap(g, ds[0].vals) {
		return mUnspec, nil
	}
	return mYes, ds[0].vals
}

func sameMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if bv, ok := b[k]; !ok || bv != v {
			return false
		}
	}
	return true
}
