From 10a99595c5bb6c59ffbca046bf3d4f3a1af281ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 01/34] fix: Template.Match returns the passed values as is
 when it doesn't match

---
 template.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/template.go b/template.go
index 96d46fb..2d38f13 100755
--- a/template.go
+++ b/template.go
@@ -433,6 +433,7 @@ func (t *Template) Match(
 	str string,
 	values TemplateValues,
 ) (bool, TemplateValues) {
+	var passedValues = values
 	var ltslices = len(t.slices)
 	var k = ltslices
 	if t.wildcardIdx >= 0 {
@@ -444,7 +445,7 @@ func (t *Template) Match(
 			if strings.HasPrefix(str, t.slices[i].staticStr) {
 				str = str[len(t.slices[i].staticStr):]
 			} else {
-				return false, values
+				return false, passedValues
 			}
 		} else {
 			var vp = t.slices[i].valuePattern
@@ -453,7 +454,7 @@ func (t *Template) Match(
 				var v = str[:idxs[1]]
 				if vi, vf := values.get(vp.name); vi >= 0 {
 					if v != vf {
-						return false, values
+						return false, passedValues
 					}
 				} else {
 					if values == nil {
@@ -465,7 +466,7 @@ func (t *Template) Match(
 
 				str = str[idxs[1]:]
 			} else {
-				return false, values
+				return false, passedValues
 			}
 		}
 	}
@@ -475,7 +476,7 @@ func (t *Template) Match(
 			if strings.HasSuffix(str, t.slices[i].staticStr) {
 				str = str[:len(str)-len(t.slices[i].staticStr)]
 			} else {
-				return false, values
+				return false, passedValues
 			}
 		} else {
 			var vp = t.slices[i].valuePattern
@@ -484,7 +485,7 @@ func (t *Template) Match(
 				var v = str[idxs[0][0]:]
 				if vi, vf := values.get(vp.name); vi >= 0 {
 					if v != vf {
-						return false, values
+						return false, passedValues
 					}
 				} else {
 					if values == nil {
@@ -496,7 +497,7 @@ func (t *Template) Match(
 
 				str = str[:idxs[0][0]]
 			} else {
-				return false, values
+				return false, passedValues
 			}
 		}
 	}
@@ -513,7 +514,7 @@ func (t *Template) Match(
 			)
 		} else {
 			// Unreachable.
-			return false, values
+			return false, passedValues
 		}
 	}
 
-- 
2.43.0


From aad5dc40223ae4a5ad91f33a3bea01074efd5459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 02/34] fix: anchor all the alternatives of a regexp segment's
 pattern

---
 template.go | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/template.go b/template.go
index 2d38f13..64763f0 100755
--- a/template.go
+++ b/template.go
@@ -853,6 +853,45 @@ func dynamicSegment(tmplStrSlc string) (
 	return
 }
 
+// groupAlternatives puts the pattern into a non-capturing group when it has
+// alternatives that are not in a group already. Otherwise, an anchor added to
+// the pattern would be applied only to the first or last alternative.
+func groupAlternatives(pattern string) string {
+	for i, depth, chClsIdx := 0, 0, -1; i < len(pattern); i++ {
+		var ch = pattern[i]
+		if ch == '\\' {
+			i++
+			continue
+		}
+
+		if chClsIdx >= 0 {
+			if ch == ']' {
+				var d = i - chClsIdx
+				if d > 1 && !(d == 2 && pattern[i-1] == '^') {
+					chClsIdx = -1
+				}
+			}
+
+			continue
+		}
+
+		switch ch {
+		case '[':
+			chClsIdx = i
+		case '(':
+			depth++
+		case ')':
+			depth--
+		case '|':
+			if depth == 0 {
+				return "(?:" + pattern + ")"
+			}
+		}
+	}
+
+	return pattern
+}
+
 // appendDynamicSegmentTo appends the value name and pattern to the list of
 // dynamic segments. The slice valuePatterns contains the previously created
 // _ValuePattern instances with value names as a key. If the value name is
@@ -868,6 +907,8 @@ func appendDynamicSegmentTo(
 	valuePatterns _ValuePatterns,
 	wildcardIdx int,
 ) ([]_TemplateSegment, _ValuePatterns, int, error) {
+	pattern = groupAlternatives(pattern)
+
 	if vpi, vp := valuePatterns.get(vName); vpi >= 0 {
 		if pattern != "" {
 			if wildcardIdx >= 0 {
-- 
2.43.0


From 3ba58962f27a98fb6045c43ebb320a1fb3da3bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 03/34] fix: don't anchor the repeated regexp segments to the
 end of the string

---
 template.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/template.go b/template.go
index 64763f0..6e1f580 100755
--- a/template.go
+++ b/template.go
@@ -857,6 +857,7 @@ func dynamicSegment(tmplStrSlc string) (
 // alternatives that are not in a group already. Otherwise, an anchor added to
 // the pattern would be applied only to the first or last alternative.
 func groupAlternatives(pattern string) string {
+	var hasAlternatives bool
 	for i, depth, chClsIdx := 0, 0, -1; i < len(pattern); i++ {
 		var ch = pattern[i]
 		if ch == '\\' {
@@ -882,13 +883,22 @@ func groupAlternatives(pattern string) string {
 			depth++
 		case ')':
 			depth--
+			if depth < 0 {
+				// The pattern is invalid. Putting it into a group may
+				// make it valid.
+				return pattern
+			}
 		case '|':
 			if depth == 0 {
-				return "(?:" + pattern + ")"
+				hasAlternatives = true
 			}
 		}
 	}
 
+	if hasAlternatives {
+		return "(?:" + pattern + ")"
+	}
+
 	return pattern
 }
 
@@ -1053,12 +1063,16 @@ func parse(tmplStr string) (
 	if vp != nil && vp.re != nil && wildcardIdx < 0 {
 		// The last segment is a value-pattern segment. So, its regexp
 		// must be modified to match the end of the string.
-		var reStr = vp.re.String() + "$"
-		vp.re, err = regexp.Compile(reStr)
+		// The value-pattern may be shared with the preceding segments of the
+		// same name, so a new instance is created for the last segment.
+		var re *regexp.Regexp
+		re, err = regexp.Compile(vp.re.String() + "$")
 		if err != nil {
 			// Unreachable.
 			return nil, -1, err
 		}
+
+		tmplSlcs[lastIdx].valuePattern = &_ValuePattern{vp.name, re}
 	}
 
 	return tmplSlcs, wildcardIdx, nil
-- 
2.43.0


From bddae6db5c4eed2a70d521c120fd9c952f421c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 04/34] fix: allow an opening curly brace in a character class
 of the pattern

---
 template.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/template.go b/template.go
index 6e1f580..d5e9db4 100755
--- a/template.go
+++ b/template.go
@@ -734,7 +734,7 @@ func dynamicSegment(tmplStrSlc string) (
 
 	for i, idx, chClsIdx := 1, 1, -1; i < ltmplStrSlc; i++ {
 		var ch = tmplStrSlc[i]
-		if ch == '{' {
+		if ch == '{' && chClsIdx < 0 {
 			depth++
 			continue
 		}
-- 
2.43.0


From 37d53ea7a446df8727daeddafe0b1e1753897bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 05/34] fix: reject a regexp segment that repeats the wildcard
 name

---
 template.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/template.go b/template.go
index d5e9db4..4121968 100755
--- a/template.go
+++ b/template.go
@@ -985,6 +985,14 @@ func appendDynamicSegmentTo(
 	}
 
 	if wildcardIdx >= 0 {
+		if vName == tss[wildcardIdx].valuePattern.name {
+			return tss, valuePatterns, wildcardIdx, newErr(
+				"%w %q",
+				ErrRepeatedWildcardName,
+				vName,
+			)
+		}
+
 		pattern += "$"
 	} else {
 		pattern = "^" + pattern
-- 
2.43.0


From c2a3e9be9129e56e340dbdc9e6944eeb9a0d3c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 06/34] fix: TryToApply rejects a value that is matched only
 partly by the pattern

---
 template.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/template.go b/template.go
index 4121968..dd5f9c2 100755
--- a/template.go
+++ b/template.go
@@ -53,6 +53,24 @@ type _ValuePattern struct {
 	re   *regexp.Regexp
 }
 
+// matches returns true if the regexp matches the entire string.
+func (vp *_ValuePattern) matches(str string) bool {
+	var idxs = vp.re.FindStringIndex(str)
+	if idxs == nil {
+		return false
+	}
+
+	if idxs[0] != 0 || idxs[1] != len(str) {
+		// The regexp may prefer a shorter match.
+		var re = vp.re.Copy()
+		re.Longest()
+
+		idxs = re.FindStringIndex(str)
+	}
+
+	return idxs[0] == 0 && idxs[1] == len(str)
+}
+
 type _ValuePatterns []*_ValuePattern
 
 // set sets the regexp for the name. If the name doesn't exist, it's added to
@@ -540,8 +558,7 @@ func (t *Template) TryToApply(
 
 		if vi, vf := values.get(slc.valuePattern.name); vi >= 0 {
 			if slc.valuePattern.re != nil {
-				var idxs = slc.valuePattern.re.FindStringIndex(vf)
-				if idxs == nil || (idxs[0] != 0 && idxs[1] != len(vf)) {
+				if !slc.valuePattern.matches(vf) {
 					return "", newErr(
 						"%w value for %q",
 						ErrInvalidValue,
-- 
2.43.0


From 8cd40d509127ccbb5b345ae3fe59beccaabc13e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 07/34] fix: Mw keeps no state of the previous requests

---
 middleware.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/middleware.go b/middleware.go
index cec1474..e7bb2dd 100755
--- a/middleware.go
+++ b/middleware.go
@@ -17,12 +17,10 @@ type Middleware func(next Handler) Handler
 // to the nanomux.Middleware.
 func Mw(mw func(http.Handler) http.Handler) Middleware {
 	return func(next Handler) Handler {
-		var nextHasBeenCalled = false
 		var h http.Handler = http.HandlerFunc(
 			func(w http.ResponseWriter, r *http.Request) {
 				var args = r.Context().Value(argsKey).(*Args)
 				args.handled = next(w, r, args)
-				nextHasBeenCalled = true
 			},
 		)
 
@@ -31,13 +29,12 @@ func Mw(mw func(http.Handler) http.Handler) Middleware {
 		return func(w http.ResponseWriter, r *http.Request, args *Args) bool {
 			var c = context.WithValue(r.Context(), argsKey, args)
 			r = r.WithContext(c)
-			h.ServeHTTP(w, r)
-
-			if nextHasBeenCalled {
-				return args.handled
-			}
 
-			return true
+			// If the middleware doesn't call the next handler, it's considered
+			// to have responded to the request.
+			args.handled = true
+			h.ServeHTTP(w, r)
+			return args.handled
 		}
 	}
 }
-- 
2.43.0


From 9c2a309aae0136839be3a11d5f726c50ae160246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 08/34] fix: keep the escaped characters of the path when
 redirecting to its clean version or trailing slash

---
 host.go     |  6 +++---
 resource.go |  6 +++---
 utils.go    | 25 +++++++++++++++++++++++++
 3 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/host.go b/host.go
index 0de5b9e..a43f854 100755
--- a/host.go
+++ b/host.go
@@ -315,7 +315,7 @@ func (hb *Host) handleOrPassRequest(
 			newURL = cloneRequestURL(r)
 		}
 
-		newURL.Path = args.path
+		args.setCleanPathTo(newURL)
 	}
 
 	if hb.IsSubtreeHandler() {
@@ -331,7 +331,7 @@ func (hb *Host) handleOrPassRequest(
 					newURL = cloneRequestURL(r)
 				}
 
-				newURL.Path += "/"
+				addTrailingSlashTo(newURL)
 			} else if !hb.HasTrailingSlash() && args.pathHasTrailingSlash() {
 				if hb.IsStrictOnTrailingSlash() {
 					return notFoundResourceHandler(w, r, args)
@@ -341,7 +341,7 @@ func (hb *Host) handleOrPassRequest(
 					newURL = cloneRequestURL(r)
 				}
 
-				newURL.Path = newURL.Path[:len(newURL.Path)-1]
+				removeTrailingSlashFrom(newURL)
 			}
 		}
 	}
diff --git a/resource.go b/resource.go
index 1e6c70d..63c5d01 100755
--- a/resource.go
+++ b/resource.go
@@ -454,7 +454,7 @@ func (rb *Resource) handleOrPassRequest(
 			newURL = cloneRequestURL(r)
 		}
 
-		newURL.Path = args.path
+		args.setCleanPathTo(newURL)
 	}
 
 	if lastSegment && !rb.IsLenientOnTrailingSlash() {
@@ -467,7 +467,7 @@ func (rb *Resource) handleOrPassRequest(
 				newURL = cloneRequestURL(r)
 			}
 
-			newURL.Path += "/"
+			addTrailingSlashTo(newURL)
 		} else if !rb.HasTrailingSlash() && args.pathHasTrailingSlash() {
 			if rb.IsStrictOnTrailingSlash() {
 				return notFoundResourceHandler(w, r, args)
@@ -477,7 +477,7 @@ func (rb *Resource) handleOrPassRequest(
 				newURL = cloneRequestURL(r)
 			}
 
-			newURL.Path = newURL.Path[:len(newURL.Path)-1]
+			removeTrailingSlashFrom(newURL)
 		}
 	}
 
diff --git a/utils.go b/utils.go
index 65ed7a6..cbf046d 100755
--- a/utils.go
+++ b/utils.go
@@ -99,6 +99,21 @@ func cloneRequestURL(r *http.Request) *url.URL {
 	return url
 }
 
+// addTrailingSlashTo adds a trailing slash to both forms of the URL's path.
+func addTrailingSlashTo(url *url.URL) {
+	url.Path += "/"
+	if url.RawPath != "" {
+		url.RawPath += "/"
+	}
+}
+
+// removeTrailingSlashFrom removes the trailing slash from both forms of the
+// URL's path.
+func removeTrailingSlashFrom(url *url.URL) {
+	url.Path = strings.TrimSuffix(url.Path, "/")
+	url.RawPath = strings.TrimSuffix(url.RawPath, "/")
+}
+
 func toUpperSplitByCommaSpace(str string) []string {
 	str = strings.TrimSpace(str)
 	var strs []string
@@ -501,6 +516,16 @@ func (args *Args) reachedTheLastPathSegment() bool {
 	return args.currentPathSegmentIdx == len(args.path)
 }
 
+// setCleanPathTo sets the clean path of the request to the URL.
+func (args *Args) setCleanPathTo(newURL *url.URL) {
+	newURL.Path, newURL.RawPath = args.path, ""
+	if args.rawPath {
+		if path, err := url.PathUnescape(args.path); err == nil {
+			newURL.Path, newURL.RawPath = path, args.path
+		}
+	}
+}
+
 // pathHasTrailingSlash returns true if the request's URL has a trailing slash.
 func (args *Args) pathHasTrailingSlash() bool {
 	return args.path != "" && args.path != "/" &&
-- 
2.43.0


From fa912f6b5a5af13887656f8424b0fc3c4af8d462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 09/34] fix: RemainingPath returns the escaped remaining path

---
 utils.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/utils.go b/utils.go
index cbf046d..dbce0f1 100755
--- a/utils.go
+++ b/utils.go
@@ -543,6 +543,17 @@ func (args *Args) HostPathValues() HostPathValues {
 // that's below the responder's segment that is currently passing or handling
 // the request.
 func (args *Args) RemainingPath() string {
+	var path = args.remainingPath()
+	if path == "" || args.rawPath {
+		return path
+	}
+
+	// The request's path has no escaped form.
+	return (&url.URL{Path: path}).EscapedPath()
+}
+
+// remainingPath returns the remaining path in the form it's used for routing.
+func (args *Args) remainingPath() string {
 	if args.reachedTheLastPathSegment() {
 		return ""
 	}
-- 
2.43.0


From 92af518ad233850b64f11b7da719d41e584ad50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 10/34] fix: URL unescapes the static segments and escapes a
 slash within a segment

---
 utils.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/utils.go b/utils.go
index dbce0f1..7954513 100755
--- a/utils.go
+++ b/utils.go
@@ -340,7 +340,7 @@ loop:
 
 			var tmpl = p.Template()
 			if tmpl.IsStatic() {
-				pss = append(pss, tmpl.Content())
+				pss = append(pss, tmpl.UnescapedContent())
 				continue
 			}
 
@@ -353,7 +353,7 @@ loop:
 		case *Host:
 			var tmpl = p.Template()
 			if tmpl.IsStatic() {
-				host = tmpl.Content()
+				host = tmpl.UnescapedContent()
 			} else {
 				var err error
 				host, err = tmpl.TryToApply(hpVs, false)
@@ -366,10 +366,17 @@ loop:
 		}
 	}
 
-	var strb = strings.Builder{}
+	var strb, rawStrb strings.Builder
+	var slashInSegment bool
 	for i := len(pss) - 1; i > -1; i-- {
 		strb.WriteByte('/')
 		strb.WriteString(pss[i])
+
+		rawStrb.WriteByte('/')
+		rawStrb.WriteString(url.PathEscape(pss[i]))
+		if strings.IndexByte(pss[i], '/') >= 0 {
+			slashInSegment = true
+		}
 	}
 
 	switch rr := _r.(type) {
@@ -377,10 +384,12 @@ loop:
 		if (rr.HasTrailingSlash() && !rr.isRoot()) ||
 			(strb.Len() == 0 && rr.isRoot()) {
 			strb.WriteByte('/')
+			rawStrb.WriteByte('/')
 		}
 	case *Host:
 		if rr.HasTrailingSlash() {
 			strb.WriteByte('/')
+			rawStrb.WriteByte('/')
 		}
 	}
 
@@ -389,7 +398,13 @@ loop:
 		scheme = "https"
 	}
 
-	return &url.URL{Scheme: scheme, Host: host, Path: strb.String()}, nil
+	var u = &url.URL{Scheme: scheme, Host: host, Path: strb.String()}
+	if slashInSegment {
+		// The slash that's a part of the path segment must be escaped.
+		u.RawPath = rawStrb.String()
+	}
+
+	return u, nil
 }
 
 // --------------------------------------------------
-- 
2.43.0


From 0d7c95d50182709337831e6ba5c4589e8250bfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 11/34] fix: static hosts are matched by their unescaped
 templates

---
 router.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/router.go b/router.go
index 568d8e5..c35aac6 100755
--- a/router.go
+++ b/router.go
@@ -732,7 +732,7 @@ func (ro *Router) RedirectAnyRequestAt(
 // different names or value names, the method returns an error.
 func (ro *Router) hostWithTemplate(tmpl *Template) (*Host, error) {
 	if tmpl.IsStatic() && ro.staticHosts != nil {
-		var h = ro.staticHosts[tmpl.Content()]
+		var h = ro.staticHosts[tmpl.UnescapedContent()]
 		if h != nil {
 			var stmpl = h.Template()
 			if stmpl == tmpl {
@@ -771,7 +771,7 @@ func (ro *Router) hostWithTemplate(tmpl *Template) (*Host, error) {
 func (ro *Router) replaceHost(oldH, newH *Host) error {
 	var tmpl = oldH.Template()
 	if tmpl.IsStatic() {
-		ro.staticHosts[tmpl.Content()] = newH
+		ro.staticHosts[tmpl.UnescapedContent()] = newH
 	} else {
 		var idx = -1
 		for i, h := range ro.patternHosts {
@@ -807,7 +807,7 @@ func (ro *Router) registerHost(h *Host) error {
 			ro.staticHosts = make(map[string]*Host)
 		}
 
-		ro.staticHosts[tmpl.Content()] = h
+		ro.staticHosts[tmpl.UnescapedContent()] = h
 	} else {
 		ro.patternHosts = append(ro.patternHosts, h)
 	}
-- 
2.43.0


From 104f3b1e4d9e01a1d9d56eb8442c4b23d70867a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 12/34] fix: the router is the parent of its implicit root
 resource

---
 router.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/router.go b/router.go
index c35aac6..93e3431 100755
--- a/router.go
+++ b/router.go
@@ -1114,6 +1114,7 @@ func (ro *Router) HasAnyHost() bool {
 
 func (ro *Router) initializeRootResource() {
 	ro.r = newRootResource()
+	ro.r.setParent(ro)
 }
 
 // Resource returns an existing or newly created resource.
-- 
2.43.0


From 5286b4331f9e8ac237aab2f973bde38c82429189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 13/34] fix: find the registered host by its name in the URL
 template

---
 router.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/router.go b/router.go
index 93e3431..b405d30 100755
--- a/router.go
+++ b/router.go
@@ -151,6 +151,24 @@ func (ro *Router) registeredHost(
 	return h, tmpl, nil
 }
 
+// registeredOrNamedHost returns an existing host. Unlike the registeredHost,
+// it also accepts a host template that contains only a name.
+func (ro *Router) registeredOrNamedHost(hTmplStr string) (*Host, error) {
+	if hTmplStr != "" {
+		var name, content, err = templateNameAndContent(hTmplStr)
+		if err == nil && name != "" && content == "" {
+			return ro.HostNamed(name), nil
+		}
+	}
+
+	var h, _, err = ro.registeredHost(hTmplStr)
+	if err != nil {
+		return nil, newErr("%w", err)
+	}
+
+	return h, nil
+}
+
 // registered_Responder returns an existing host or resource. The return value
 // host is set to true when the URL template contains only a host template,
 // even if that host doesn't exist.
@@ -172,7 +190,7 @@ func (ro *Router) registered_Responder(urlTmplStr string) (
 	}
 
 	if hTmplStr != "" {
-		_r, _, err = ro.registeredHost(hTmplStr)
+		_r, err = ro.registeredOrNamedHost(hTmplStr)
 		if err != nil {
 			return nil, false, newErr("%w", err)
 		}
@@ -1025,7 +1043,7 @@ func (ro *Router) RegisteredHost(hostTmplStr string) *Host {
 	}
 
 	var h *Host
-	h, _, err = ro.registeredHost(hostTmplStr)
+	h, err = ro.registeredOrNamedHost(hostTmplStr)
 	if err != nil {
 		panicWithErr("%w", err)
 	}
@@ -1330,6 +1348,7 @@ func (ro *Router) registerNewRoot(r *Resource) error {
 			return newErr("%w", err)
 		}
 
+		ro.r.setParent(nil)
 		ro.r = r
 		r.setParent(ro)
 		return nil
@@ -1604,7 +1623,7 @@ func (ro *Router) RegisteredResource(urlTmplStr string) *Resource {
 
 	var _r _Responder
 	if hTmplStr != "" {
-		_r, _, err = ro.registeredHost(hTmplStr)
+		_r, err = ro.registeredOrNamedHost(hTmplStr)
 		if err != nil {
 			panicWithErr("%w", err)
 		}
-- 
2.43.0


From c92bdada07c3eb65d791f1cb3c3d091b2056e319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 14/34] fix: reject a duplicate host name when the host is
 created with its resource

---
 router.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/router.go b/router.go
index b405d30..e4dfd15 100755
--- a/router.go
+++ b/router.go
@@ -86,6 +86,10 @@ func (ro *Router) _Responder(urlTmplStr string) (_Responder, error) {
 
 				_r.registerResource(newFirst)
 				if newHost {
+					if ro.HostNamed(_r.Name()) != nil {
+						return nil, newErr("%w", errDuplicateNameAmongSiblings)
+					}
+
 					// When newHost is true _r would still be holding
 					// a pointer to a newly created host.
 					err = ro.registerHost(_r.(*Host))
@@ -1395,6 +1399,10 @@ func (ro *Router) RegisterResource(r *Resource) {
 				panicWithErr("%w", err)
 			}
 
+			if newHost && ro.HostNamed(_r.Name()) != nil {
+				panicWithErr("%w", errDuplicateNameAmongSiblings)
+			}
+
 			// The following if statement should never be true.
 			if urlt.PrefixPath == "/" {
 				// Unreachable.
@@ -1542,6 +1550,10 @@ func (ro *Router) RegisterResourceUnder(urlTmplStr string, r *Resource) {
 		if err != nil {
 			panicWithErr("%w", err)
 		}
+
+		if newHost && ro.HostNamed(_r.Name()) != nil {
+			panicWithErr("%w", errDuplicateNameAmongSiblings)
+		}
 	}
 
 	// Here, _r is either nil or has a valid pointer to a host.
-- 
2.43.0


From c2fe8cecf0a50815e2b3d875b92e60fc908a6041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 15/34] fix: configure the implicitly created host or resource
 when it's first asked for

---
 router.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/router.go b/router.go
index e4dfd15..b13b3ad 100755
--- a/router.go
+++ b/router.go
@@ -914,7 +914,11 @@ func (ro *Router) Host(hostTmplStr string) *Host {
 	} else {
 		err = h.checkForConfigCompatibility(secure, tslash, nil)
 		if err != nil {
-			panicWithErr("%w", err)
+			if errors.Is(err, errDormantHost) {
+				h.configure(secure, tslash, nil)
+			} else {
+				panicWithErr("%w", err)
+			}
 		}
 	}
 
@@ -965,7 +969,11 @@ func (ro *Router) HostUsingConfig(
 	} else {
 		err = h.checkForConfigCompatibility(secure, tslash, &cfs)
 		if err != nil {
-			panicWithErr("%w", err)
+			if errors.Is(err, errDormantHost) {
+				h.configure(secure, tslash, &cfs)
+			} else {
+				panicWithErr("%w", err)
+			}
 		}
 	}
 
@@ -1666,7 +1674,11 @@ func (ro *Router) RegisteredResource(urlTmplStr string) *Resource {
 	if r, ok := _r.(*Resource); ok && r != nil {
 		err = _r.checkForConfigCompatibility(secure, tslash, nil)
 		if err != nil {
-			panicWithErr("%w", err)
+			if errors.Is(err, errDormantResource) {
+				_r.configure(secure, tslash, nil)
+			} else {
+				panicWithErr("%w", err)
+			}
 		}
 
 		return _r.(*Resource)
-- 
2.43.0


From e24599fcf0e929ae9d9c080e563d00027b6f6525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 16/34] fix: ResourceUsingConfig ignores the trailing slash
 properties of the root resource

---
 router.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/router.go b/router.go
index b13b3ad..4e0762c 100755
--- a/router.go
+++ b/router.go
@@ -1313,6 +1313,18 @@ func (ro *Router) ResourceUsingConfig(
 		}
 	}
 
+	if pTmplStr == "/" {
+		// The trailing slash properties have no effect on the root resource.
+		config.HasTrailingSlash = false
+		config.LenientOnTrailingSlash = false
+		config.StrictOnTrailingSlash = false
+
+		if config.HandlesThePathAsIs {
+			config.LenientOnUncleanPath = true
+			config.HandlesThePathAsIs = false
+		}
+	}
+
 	var cfs = config.asFlags()
 	err = _r.checkForConfigCompatibility(secure, tslash, &cfs)
 	if err != nil {
-- 
2.43.0


From b815363283ad266a41d5dd96cfb9f695323b04e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 17/34] fix: SetImplementation discards the existing handlers
 even when the impl has none

---
 responder.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/responder.go b/responder.go
index 9e12017..a9301e4 100755
--- a/responder.go
+++ b/responder.go
@@ -1516,9 +1516,15 @@ func (rb *_ResponderBase) SetImplementation(impl Impl) {
 
 	rb.impl = impl
 
-	if rhb != nil {
-		rb.setRequestHandlerBase(rhb)
+	if rhb == nil {
+		if rb._RequestHandlerBase == nil {
+			return
+		}
+
+		rhb = &_RequestHandlerBase{}
 	}
+
+	rb.setRequestHandlerBase(rhb)
 }
 
 // Implementation returns the implementation of the responder. If the responder
-- 
2.43.0


From 898dfaccd59ee2d00870300a114e5faa2e134ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 18/34] fix: a subtree handler host checks the trailing slash
 of a one-character path too

---
 host.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/host.go b/host.go
index a43f854..d2aa4a1 100755
--- a/host.go
+++ b/host.go
@@ -319,9 +319,9 @@ func (hb *Host) handleOrPassRequest(
 	}
 
 	if hb.IsSubtreeHandler() {
-		// The path must have at least three characters for it to have
+		// A path with a single slash has no segments, and so it can't have
 		// a trailing slash.
-		if len(args.path) > 2 && !hb.IsLenientOnTrailingSlash() {
+		if len(args.path) > 1 && !hb.IsLenientOnTrailingSlash() {
 			if hb.HasTrailingSlash() && !args.pathHasTrailingSlash() {
 				if hb.IsStrictOnTrailingSlash() {
 					return notFoundResourceHandler(w, r, args)
-- 
2.43.0


From d0e274209b66fd43cc0724ed3e3fdfcbda623b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 19/34] fix: a resource below the root resource accepts a
 resource with a URL template

---
 responder.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/responder.go b/responder.go
index a9301e4..88f4ee1 100755
--- a/responder.go
+++ b/responder.go
@@ -522,7 +522,13 @@ func (rb *_ResponderBase) validateURL(hostTmplStr string, pathTmplStr string) (
 	}
 
 	var lresources = len(resources)
-	if _, ok := resources[0].(*Host); ok {
+	var _, skip = resources[0].(*Host)
+	if r, ok := resources[0].(*Resource); ok && r.isRoot() {
+		// Like the host, the root resource has no path segment of its own.
+		skip = true
+	}
+
+	if skip {
 		if lresources == 1 {
 			if pathTmplStr == "" || pathTmplStr == "/" {
 				return "", nil
-- 
2.43.0


From 9c3be42e44d08f2afa21b0a254bebd6e7356f995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:38 +0000
Subject: [PATCH 20/34] fix: merging of resources that conflict below changes
 nothing

A failed registration left a part of the child resources moved to the other
resource.
---
 responder.go | 59 +++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 58 insertions(+), 1 deletion(-)

diff --git a/responder.go b/responder.go
index 88f4ee1..fac6db5 100755
--- a/responder.go
+++ b/responder.go
@@ -59,6 +59,7 @@ type _Responder interface {
 
 	resourceWithTemplate(tmpl *Template) (*Resource, error)
 	registeredResource(pathTmplStr string) (r *Resource, tslash bool, err error)
+	checkChildResourceToKeep(r *Resource) error
 	passChildResourcesTo(r _Responder) error
 	registerResource(r *Resource) error
 	segmentResources(pathSegments []string) (
@@ -675,9 +676,65 @@ func (rb *_ResponderBase) registeredResource(
 	return r, psi.pathHasTrailingSlash(), nil
 }
 
+// checkChildResourceToKeep checks whether the keepResourceOrItsChildResources
+// method can keep the argument resource or its child resources, without
+// changing anything.
+func (rb *_ResponderBase) checkChildResourceToKeep(r *Resource) error {
+	var rwt, err = rb.resourceWithTemplate(r.Template())
+	if err != nil {
+		return newErr("%w", err)
+	}
+
+	if rwt == nil {
+		if rb.ChildResourceNamed(r.Name()) != nil {
+			return newErr("%w", errDuplicateNameAmongSiblings)
+		}
+
+		return nil
+	}
+
+	var rcfs = r.configFlags()
+	err = rwt.checkForConfigCompatibility(
+		rcfs.has(flagSecure),
+		rcfs.has(flagTrailingSlash),
+		&rcfs,
+	)
+
+	if err != nil && !errors.Is(err, errDormantResource) {
+		return newErr("%w", err)
+	}
+
+	var from, to = r, rwt
+	if r.canHandleRequest() {
+		if rwt.canHandleRequest() {
+			return newErr(
+				"%w %s",
+				errDuplicateResourceTemplate,
+				rwt.Template().String(),
+			)
+		}
+
+		from, to = rwt, r
+	}
+
+	for _, chr := range from.ChildResources() {
+		if err = to.checkChildResourceToKeep(chr); err != nil {
+			return newErr("%w", err)
+		}
+	}
+
+	return nil
+}
+
 // passChildResourcesTo method transfers all of the child resources to the
-// argument resource.
+// argument resource. If one of them cannot be transferred, nothing is changed.
 func (rb *_ResponderBase) passChildResourcesTo(r _Responder) error {
+	for _, chr := range rb.ChildResources() {
+		if err := r.checkChildResourceToKeep(chr); err != nil {
+			return newErr("%w", err)
+		}
+	}
+
 	for _, rr := range rb.staticResources {
 		if err := r.keepResourceOrItsChildResources(rr); err != nil {
 			return newErr("%w", err)
-- 
2.43.0


From a449c7fb42b6255e956cdddd1c9de6e8fddccae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 21/34] fix: an implicitly created resource doesn't conflict
 with a configured one

It has no configuration yet that could be compared when trees are merged.
---
 responder.go | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/responder.go b/responder.go
index fac6db5..e76d81b 100755
--- a/responder.go
+++ b/responder.go
@@ -693,15 +693,17 @@ func (rb *_ResponderBase) checkChildResourceToKeep(r *Resource) error {
 		return nil
 	}
 
-	var rcfs = r.configFlags()
-	err = rwt.checkForConfigCompatibility(
-		rcfs.has(flagSecure),
-		rcfs.has(flagTrailingSlash),
-		&rcfs,
-	)
+	// A resource that was created implicitly hasn't been configured yet.
+	if rcfs := r.configFlags(); rcfs.has(flagActive) {
+		err = rwt.checkForConfigCompatibility(
+			rcfs.has(flagSecure),
+			rcfs.has(flagTrailingSlash),
+			&rcfs,
+		)
 
-	if err != nil && !errors.Is(err, errDormantResource) {
-		return newErr("%w", err)
+		if err != nil && !errors.Is(err, errDormantResource) {
+			return newErr("%w", err)
+		}
 	}
 
 	var from, to = r, rwt
@@ -1014,15 +1016,17 @@ func (rb *_ResponderBase) keepResourceOrItsChildResources(r *Resource) error {
 		return nil
 	}
 
-	var rcfs = r.configFlags()
-	err = rwt.checkForConfigCompatibility(
-		rcfs.has(flagSecure),
-		rcfs.has(flagTrailingSlash),
-		&rcfs,
-	)
+	// A resource that was created implicitly hasn't been configured yet.
+	if rcfs := r.configFlags(); rcfs.has(flagActive) {
+		err = rwt.checkForConfigCompatibility(
+			rcfs.has(flagSecure),
+			rcfs.has(flagTrailingSlash),
+			&rcfs,
+		)
 
-	if err != nil && !errors.Is(err, errDormantResource) {
-		return newErr("%w", err)
+		if err != nil && !errors.Is(err, errDormantResource) {
+			return newErr("%w", err)
+		}
 	}
 
 	if !r.canHandleRequest() {
-- 
2.43.0


From 9a7283345b41c000648d9a815d01673f260cedfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:09 +0000
Subject: [PATCH 22/34] fix: reset the parent of a resource that isn't kept

---
 responder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/responder.go b/responder.go
index e76d81b..b4299a6 100755
--- a/responder.go
+++ b/responder.go
@@ -1035,6 +1035,14 @@ func (rb *_ResponderBase) keepResourceOrItsChildResources(r *Resource) error {
 			return newErr("%w", err)
 		}
 
+		// The resource may have been a child of another resource, which has
+		// just passed it.
+		err = r.setParent(nil)
+		if err != nil {
+			// Unreachable.
+			return newErr("%w", err)
+		}
+
 		return nil
 	}
 
-- 
2.43.0


From dc4cd9536bf741fa8d16f66a879832e4cedf323f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:49 +0000
Subject: [PATCH 23/34] fix: remove every trailing slash when redirecting to
 the version without it

---
 utils.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/utils.go b/utils.go
index 7954513..a497b2a 100755
--- a/utils.go
+++ b/utils.go
@@ -107,11 +107,17 @@ func addTrailingSlashTo(url *url.URL) {
 	}
 }
 
-// removeTrailingSlashFrom removes the trailing slash from both forms of the
+// removeTrailingSlashFrom removes the trailing slashes from both forms of the
 // URL's path.
 func removeTrailingSlashFrom(url *url.URL) {
-	url.Path = strings.TrimSuffix(url.Path, "/")
-	url.RawPath = strings.TrimSuffix(url.RawPath, "/")
+	if url.RawPath == "" {
+		url.Path = strings.TrimRight(url.Path, "/")
+		return
+	}
+
+	var lrp = len(url.RawPath)
+	url.RawPath = strings.TrimRight(url.RawPath, "/")
+	url.Path = url.Path[:len(url.Path)-(lrp-len(url.RawPath))]
 }
 
 func toUpperSplitByCommaSpace(str string) []string {
-- 
2.43.0


From eeb0a9de458a896635e3d03fd16cab8ad87a4b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:07 +0000
Subject: [PATCH 24/34] fix: a pattern's own start anchor doesn't prevent its
 repetition after the wildcard from matching

---
 template.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/template.go b/template.go
index dd5f9c2..6a875bc 100755
--- a/template.go
+++ b/template.go
@@ -934,6 +934,13 @@ func appendDynamicSegmentTo(
 	valuePatterns _ValuePatterns,
 	wildcardIdx int,
 ) ([]_TemplateSegment, _ValuePatterns, int, error) {
+	// The pattern is anchored below, depending on its place. It may already
+	// have an anchor, as the patterns in the template's string do.
+	if p := strings.TrimLeft(pattern, "^"); p != "" &&
+		strings.IndexByte("*+?{", p[0]) < 0 {
+		pattern = p
+	}
+
 	pattern = groupAlternatives(pattern)
 
 	if vpi, vp := valuePatterns.get(vName); vpi >= 0 {
-- 
2.43.0


From 5b4451926990700cb9d125d473990e279ebfecb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:08 +0000
Subject: [PATCH 25/34] fix: a URL to redirect to that starts with "http" but
 has no scheme is a path

---
 requesthandler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/requesthandler.go b/requesthandler.go
index 63159e8..ef36a14 100755
--- a/requesthandler.go
+++ b/requesthandler.go
@@ -616,7 +616,8 @@ func redirector(
 		)
 	}
 
-	if tUrl := strings.TrimPrefix(url, "http"); len(tUrl) == lUrl {
+	if !strings.HasPrefix(url, "http://") &&
+		!strings.HasPrefix(url, "https://") {
 		if url[0] != '/' {
 			url = "/" + url
 			lUrl = len(url)
-- 
2.43.0


From 893e4cd41c4f804367d8c44da9d72618e5df034a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:28 +0000
Subject: [PATCH 26/34] fix: flags of a pattern don't apply to the anchor added
 to it

With the flag m, as in "{w}{v:(?m)a}", the end anchor added to the pattern
matched at the ends of lines: values that the pattern doesn't match were
accepted, and values that it matches were rejected.
---
 template.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/template.go b/template.go
index 6a875bc..cfd4cbc 100755
--- a/template.go
+++ b/template.go
@@ -871,10 +871,11 @@ func dynamicSegment(tmplStrSlc string) (
 }
 
 // groupAlternatives puts the pattern into a non-capturing group when it has
-// alternatives that are not in a group already. Otherwise, an anchor added to
-// the pattern would be applied only to the first or last alternative.
+// alternatives or flags that are not in a group already. Otherwise, an anchor
+// added to the pattern would be applied only to the first or last alternative,
+// or would depend on the flags.
 func groupAlternatives(pattern string) string {
-	var hasAlternatives bool
+	var mustBeGrouped bool
 	for i, depth, chClsIdx := 0, 0, -1; i < len(pattern); i++ {
 		var ch = pattern[i]
 		if ch == '\\' {
@@ -897,6 +898,10 @@ func groupAlternatives(pattern string) string {
 		case '[':
 			chClsIdx = i
 		case '(':
+			if depth == 0 && setsFlags(pattern[i:]) {
+				mustBeGrouped = true
+			}
+
 			depth++
 		case ')':
 			depth--
@@ -907,18 +912,29 @@ func groupAlternatives(pattern string) string {
 			}
 		case '|':
 			if depth == 0 {
-				hasAlternatives = true
+				mustBeGrouped = true
 			}
 		}
 	}
 
-	if hasAlternatives {
+	if mustBeGrouped {
 		return "(?:" + pattern + ")"
 	}
 
 	return pattern
 }
 
+// setsFlags returns true if the group at the beginning of the pattern sets
+// flags for the rest of the pattern, like "(?i)".
+func setsFlags(pattern string) bool {
+	if !strings.HasPrefix(pattern, "(?") {
+		return false
+	}
+
+	var idx = strings.IndexAny(pattern[2:], ":<)")
+	return idx >= 0 && pattern[2+idx] == ')'
+}
+
 // appendDynamicSegmentTo appends the value name and pattern to the list of
 // dynamic segments. The slice valuePatterns contains the previously created
 // _ValuePattern instances with value names as a key. If the value name is
-- 
2.43.0


From 704262160ec17768637b0dae61be8025d42fb1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:15 +0000
Subject: [PATCH 27/34] fix: anchors are added to patterns with quoted text

In "{v:\Q)\E|a}" the anchors were applied only to the first and last
alternatives, and the end anchor was quoted in "{v:\Qa.b}".
---
 template.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/template.go b/template.go
index cfd4cbc..640a139 100755
--- a/template.go
+++ b/template.go
@@ -880,6 +880,17 @@ func groupAlternatives(pattern string) string {
 		var ch = pattern[i]
 		if ch == '\\' {
 			i++
+			if chClsIdx < 0 && i < len(pattern) && pattern[i] == 'Q' {
+				// Everything up to the "\E" is a literal text.
+				var idx = strings.Index(pattern[i:], `\E`)
+				if idx < 0 {
+					pattern += `\E`
+					break
+				}
+
+				i += idx + 1
+			}
+
 			continue
 		}
 
-- 
2.43.0


From b2ca4c4d610fb04ed19ce2be4586b18d9181a3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:02 +0000
Subject: [PATCH 28/34] fix: URL-based methods of the router panic for
 implicitly created responders

---
 router.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/router.go b/router.go
index 4e0762c..22177bc 100755
--- a/router.go
+++ b/router.go
@@ -246,7 +246,14 @@ func (ro *Router) registered_Responder(urlTmplStr string) (
 	if validPtr {
 		err = _r.checkForConfigCompatibility(secure, tslash, nil)
 		if err != nil {
-			return nil, false, newErr("%w", err)
+			// The scheme and trailing slash properties don't apply to
+			// the root resource.
+			if pTmplStr != "/" && (errors.Is(err, errDormantHost) ||
+				errors.Is(err, errDormantResource)) {
+				_r.configure(secure, tslash, nil)
+			} else {
+				return nil, false, newErr("%w", err)
+			}
 		}
 	} else {
 		return nil, host, nil
-- 
2.43.0


From 9e4bc664392125d48d0f372e9560e6adbe8085ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:04 +0000
Subject: [PATCH 29/34] fix: port of a bracketed IPv6 host is not ignored

---
 host.go   | 6 ++++++
 router.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/host.go b/host.go
index d2aa4a1..74363a9 100755
--- a/host.go
+++ b/host.go
@@ -232,6 +232,12 @@ func (hb *Host) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		if strings.LastIndexByte(host, ':') >= 0 {
 			var h, _, err = net.SplitHostPort(host)
 			if err == nil {
+				if host[0] == '[' {
+					// An IPv6 address stays in brackets, as it does when
+					// there is no port.
+					h = "[" + h + "]"
+				}
+
 				host = h
 			}
 		}
diff --git a/router.go b/router.go
index 22177bc..eebc30f 100755
--- a/router.go
+++ b/router.go
@@ -1863,6 +1863,12 @@ func (ro *Router) passRequest(
 		if strings.LastIndexByte(host, ':') >= 0 {
 			var h, _, err = net.SplitHostPort(host)
 			if err == nil {
+				if host[0] == '[' {
+					// An IPv6 address stays in brackets, as it does when
+					// there is no port.
+					h = "[" + h + "]"
+				}
+
 				host = h
 			}
 		}
-- 
2.43.0


From 99af42bb2b6abf78749c7f5d3a39761d957259b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:56 +0000
Subject: [PATCH 30/34] fix: resource becomes secure when RegisterResourceUnder
 rejects it

---
 router.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/router.go b/router.go
index eebc30f..aedb9d1 100755
--- a/router.go
+++ b/router.go
@@ -1612,20 +1612,21 @@ func (ro *Router) RegisterResourceUnder(urlTmplStr string, r *Resource) {
 		panicWithErr("%w", err)
 	}
 
+	var cfs = r.configFlags()
 	if secure {
 		r.setConfigFlags(flagSecure)
 	}
 
 	if pTmplStr != "" && pTmplStr != "/" {
 		err = _r.registerResourceUnder(pTmplStr, r)
-		if err != nil {
-			panicWithErr("%w", err)
-		}
 	} else {
-		var err = _r.keepResourceOrItsChildResources(r)
-		if err != nil {
-			panicWithErr("%w", err)
-		}
+		err = _r.keepResourceOrItsChildResources(r)
+	}
+
+	if err != nil {
+		// The resource isn't registered, so it must stay as it was.
+		r.resetConfigFlags(cfs)
+		panicWithErr("%w", err)
 	}
 
 	if newHost {
-- 
2.43.0


From 8d617e4f16eba842f678a7b3762f0ed07b894015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:22 +0000
Subject: [PATCH 31/34] fix: resource loses its URL template when it's rejected

---
 resource.go  |  4 +---
 responder.go | 10 ++++++++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/resource.go b/resource.go
index 63c5d01..e59428f 100755
--- a/resource.go
+++ b/resource.go
@@ -310,9 +310,7 @@ func newRootResource() *Resource {
 // }
 
 func (rb *Resource) urlTmpl() *_URLTmpl {
-	var urlt = rb.urlt
-	rb.urlt = nil
-	return urlt
+	return rb.urlt
 }
 
 // -------------------------
diff --git a/responder.go b/responder.go
index b4299a6..1194e9f 100755
--- a/responder.go
+++ b/responder.go
@@ -232,6 +232,7 @@ func (rb *_ResponderBase) Router() *Router {
 // setParent sets the responder's parent when it's being registered.
 func (rb *_ResponderBase) setParent(p _Parent) error {
 	if p == nil {
+		rb.clearURLTmpl()
 		rb.papa = nil
 		return nil
 	}
@@ -250,10 +251,19 @@ func (rb *_ResponderBase) setParent(p _Parent) error {
 		}
 	}
 
+	rb.clearURLTmpl()
 	rb.papa = p
 	return nil
 }
 
+// clearURLTmpl clears the URL template of the resource. The URL template is
+// used only once, when the resource is being registered.
+func (rb *_ResponderBase) clearURLTmpl() {
+	if r, ok := rb.derived.(*Resource); ok {
+		r.urlt = nil
+	}
+}
+
 // parent returns the responder's parent.
 func (rb *_ResponderBase) parent() _Parent {
 	return rb.papa
-- 
2.43.0


From 8d869e0053a40ff034fcd58979c4a6a3adb56153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:50 +0000
Subject: [PATCH 32/34] fix: wraps that are rejected are partly applied

---
 requesthandler.go | 41 +++++++++++++++++++++--------------------
 responder.go      | 22 ++++++++++++++--------
 router.go         |  2 ++
 3 files changed, 37 insertions(+), 28 deletions(-)

diff --git a/requesthandler.go b/requesthandler.go
index ef36a14..ee377c1 100755
--- a/requesthandler.go
+++ b/requesthandler.go
@@ -335,6 +335,12 @@ func (rhb *_RequestHandlerBase) wrapHandlerOf(
 		return newErr("%w", errNoMiddleware)
 	}
 
+	for i, mw := range mws {
+		if mw == nil {
+			return newErr("%w at index %d", errNoMiddleware, i)
+		}
+	}
+
 	if len(rhb.mhPairs) == 0 && rhb.notAllowedHTTPMethodHandler == nil {
 		return newErr("%w", errNoHandlerExists)
 	}
@@ -348,11 +354,7 @@ func (rhb *_RequestHandlerBase) wrapHandlerOf(
 	if lms == 1 {
 		if ms[0] == "!" {
 			rhb.notAllowedHTTPMethodHandler = rhb.handlerOf("!")
-			for i, mw := range mws {
-				if mw == nil {
-					return newErr("%w at index %d", errNoMiddleware, i)
-				}
-
+			for _, mw := range mws {
 				rhb.notAllowedHTTPMethodHandler = mw(
 					rhb.notAllowedHTTPMethodHandler,
 				)
@@ -361,11 +363,7 @@ func (rhb *_RequestHandlerBase) wrapHandlerOf(
 			return nil
 		} else if ms[0] == "*" {
 			for _, mhp := range rhb.mhPairs {
-				for i, mw := range mws {
-					if mw == nil {
-						return newErr("%w at index %d", errNoMiddleware, i)
-					}
-
+				for _, mw := range mws {
 					mhp.handler = mw(mhp.handler)
 					rhb.mhPairs.set(mhp.method, mhp.handler)
 				}
@@ -376,20 +374,19 @@ func (rhb *_RequestHandlerBase) wrapHandlerOf(
 	}
 
 	for _, m := range ms {
-		if _, h := rhb.mhPairs.get(m); h != nil {
-			for i, mw := range mws {
-				if mw == nil {
-					return newErr("%w at index %d", errNoMiddleware, i)
-				}
-
-				h = mw(h)
-				rhb.mhPairs.set(m, h)
-			}
-		} else {
+		if _, h := rhb.mhPairs.get(m); h == nil {
 			return newErr("%w for the method %q", errNoHandlerExists, m)
 		}
 	}
 
+	for _, m := range ms {
+		var _, h = rhb.mhPairs.get(m)
+		for _, mw := range mws {
+			h = mw(h)
+			rhb.mhPairs.set(m, h)
+		}
+	}
+
 	return nil
 }
 
@@ -591,7 +588,9 @@ func WrapCommonRedirectHandler(
 		if mw == nil {
 			panicWithErr("%w at index %d", errNilArgument, i)
 		}
+	}
 
+	for _, mw := range mws {
 		commonRedirectHandler = mw(commonRedirectHandler)
 	}
 }
@@ -694,7 +693,9 @@ func WrapHandlerOfNotFound(mws ...Middleware) {
 		if mw == nil {
 			panicWithErr("%w at index %d", errNilArgument, i)
 		}
+	}
 
+	for _, mw := range mws {
 		notFoundResourceHandler = mw(notFoundResourceHandler)
 	}
 }
diff --git a/responder.go b/responder.go
index 1194e9f..d25bc23 100755
--- a/responder.go
+++ b/responder.go
@@ -1670,7 +1670,9 @@ func (rb *_ResponderBase) WrapRequestPasser(mws ...Middleware) {
 		if mw == nil {
 			panicWithErr("%w at index %d", errNoMiddleware, i)
 		}
+	}
 
+	for _, mw := range mws {
 		rb.requestPasser = mw(rb.requestPasser)
 	}
 }
@@ -1687,15 +1689,17 @@ func (rb *_ResponderBase) WrapRequestHandler(mws ...Middleware) {
 		panicWithErr("%w", errNoMiddleware)
 	}
 
-	if rb._RequestHandlerBase == nil {
-		rb.setRequestHandlerBase(&_RequestHandlerBase{})
-	}
-
 	for i, mw := range mws {
 		if mw == nil {
 			panicWithErr("%w at index %d", errNoMiddleware, i)
 		}
+	}
+
+	if rb._RequestHandlerBase == nil {
+		rb.setRequestHandlerBase(&_RequestHandlerBase{})
+	}
 
+	for _, mw := range mws {
 		rb.requestHandler = mw(rb.requestHandler)
 	}
 }
@@ -1807,15 +1811,17 @@ func (rb *_ResponderBase) WrapRedirectHandler(
 		panicWithErr("%w", errNoMiddleware)
 	}
 
-	if rb.redirectHandler == nil {
-		rb.redirectHandler = commonRedirectHandler
-	}
-
 	for i, mw := range mws {
 		if mw == nil {
 			panicWithErr("%w at index %d", errNoMiddleware, i)
 		}
+	}
+
+	if rb.redirectHandler == nil {
+		rb.redirectHandler = commonRedirectHandler
+	}
 
+	for _, mw := range mws {
 		rb.redirectHandler = mw(rb.redirectHandler)
 	}
 }
diff --git a/router.go b/router.go
index aedb9d1..74ef56a 100755
--- a/router.go
+++ b/router.go
@@ -1721,7 +1721,9 @@ func (ro *Router) WrapRequestPasser(mws ...Middleware) {
 		if mw == nil {
 			panicWithErr("%w at index %d", errNoMiddleware, i)
 		}
+	}
 
+	for _, mw := range mws {
 		ro.requestPasser = mw(ro.requestPasser)
 	}
 }
-- 
2.43.0


From f7cfbf34af163c22bab9ca53f93b747588ef3531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:47 +0000
Subject: [PATCH 33/34] fix: responder is created when the arguments of the
 call that creates it are rejected

---
 responder.go | 124 +++++++++++++++++++++++++++++++++++++++++++++++++++
 router.go    |  36 +++++++++++++++
 2 files changed, 160 insertions(+)

diff --git a/responder.go b/responder.go
index d25bc23..32f1cba 100755
--- a/responder.go
+++ b/responder.go
@@ -1968,6 +1968,10 @@ func (rb *_ResponderBase) ConfigurationAt(pathTmplStr string) Config {
 // compatible with the existing resource's properties. A newly created resource
 // is configured with the values in the path template.
 func (rb *_ResponderBase) SetImplementationAt(pathTmplStr string, rh Impl) {
+	if err := checkImpl(rh); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var r = rb.Resource(pathTmplStr)
 	r.SetImplementation(rh)
 }
@@ -2005,6 +2009,10 @@ func (rb *_ResponderBase) SetPathHandlerFor(
 	methods, pathTmplStr string,
 	handler Handler,
 ) {
+	if err := checkHandler(methods, handler); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var r = rb.Resource(pathTmplStr)
 	r.SetHandlerFor(methods, handler)
 }
@@ -2044,6 +2052,10 @@ func (rb *_ResponderBase) WrapRequestPasserAt(
 	pathTmplStr string,
 	mws ...Middleware,
 ) {
+	if err := checkMiddlewares(mws); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var r = rb.Resource(pathTmplStr)
 	r.WrapRequestPasser(mws...)
 }
@@ -2064,6 +2076,10 @@ func (rb *_ResponderBase) WrapRequestHandlerAt(
 	pathTmplStr string,
 	mws ...Middleware,
 ) {
+	if err := checkMiddlewares(mws); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var r = rb.Resource(pathTmplStr)
 	r.WrapRequestHandler(mws...)
 }
@@ -2114,6 +2130,10 @@ func (rb *_ResponderBase) SetPermanentRedirectCodeAt(
 	pathTmplStr string,
 	code int,
 ) {
+	if err := checkPermanentRedirectCode(code); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var r = rb.Resource(pathTmplStr)
 	r.SetPermanentRedirectCode(code)
 }
@@ -2160,6 +2180,10 @@ func (rb *_ResponderBase) SetRedirectHandlerAt(
 	pathTmplStr string,
 	handler RedirectHandler,
 ) {
+	if err := checkRedirectHandler(handler); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var r = rb.Resource(pathTmplStr)
 	r.SetRedirectHandler(handler)
 }
@@ -2209,6 +2233,10 @@ func (rb *_ResponderBase) WrapRedirectHandlerAt(
 	pathTmplStr string,
 	mws ...func(RedirectHandler) RedirectHandler,
 ) {
+	if err := checkRedirectHandlerWrappers(mws); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var r = rb.Resource(pathTmplStr)
 	r.WrapRedirectHandler(mws...)
 }
@@ -2241,6 +2269,10 @@ func (rb *_ResponderBase) RedirectRequestAt(
 	url string,
 	redirectCode int,
 ) {
+	if err := checkRedirect(url, redirectCode); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var r = rb.Resource(pathTmplStr)
 	r.RedirectRequestTo(url, redirectCode)
 }
@@ -2272,6 +2304,10 @@ func (rb *_ResponderBase) RedirectAnyRequestAt(
 	url string,
 	redirectCode int,
 ) {
+	if err := checkRedirect(url, redirectCode); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var r = rb.Resource(pathTmplStr)
 	r.RedirectAnyRequestTo(url, redirectCode)
 }
@@ -2463,3 +2499,91 @@ func (rb *_ResponderBase) passRequest(
 	args.currentPathSegmentIdx = currentPathSegmentIdx
 	return args.handled
 }
+
+// --------------------------------------------------
+
+// The following functions check the arguments of the methods that create the
+// responder when it doesn't exist. A rejected call must not create it.
+
+func checkImpl(impl Impl) error {
+	if impl == nil {
+		return newErr("%w", errNilArgument)
+	}
+
+	return nil
+}
+
+func checkHandler(methods string, h Handler) error {
+	if h == nil {
+		return newErr("%w", errNilArgument)
+	}
+
+	if len(toUpperSplitByCommaSpace(methods)) == 0 {
+		return newErr("%w", errNoHTTPMethod)
+	}
+
+	return nil
+}
+
+func checkMiddlewares(mws []Middleware) error {
+	if len(mws) == 0 {
+		return newErr("%w", errNoMiddleware)
+	}
+
+	for i, mw := range mws {
+		if mw == nil {
+			return newErr("%w at index %d", errNoMiddleware, i)
+		}
+	}
+
+	return nil
+}
+
+func checkPermanentRedirectCode(code int) error {
+	if code != http.StatusMovedPermanently &&
+		code != http.StatusPermanentRedirect {
+		return newErr("%w", errConflictingStatusCode)
+	}
+
+	return nil
+}
+
+func checkRedirectHandler(handler RedirectHandler) error {
+	if handler == nil {
+		return newErr("%w", errNilArgument)
+	}
+
+	return nil
+}
+
+func checkRedirectHandlerWrappers(
+	mws []func(RedirectHandler) RedirectHandler,
+) error {
+	if len(mws) == 0 {
+		return newErr("%w", errNoMiddleware)
+	}
+
+	for i, mw := range mws {
+		if mw == nil {
+			return newErr("%w at index %d", errNoMiddleware, i)
+		}
+	}
+
+	return nil
+}
+
+func checkRedirect(url string, redirectCode int) error {
+	if len(url) == 0 {
+		return newErr("%w: empty url", errInvalidArgument)
+	}
+
+	if redirectCode < 300 || redirectCode > 399 {
+		return newErr(
+			"%w: redirect code %v is out of range",
+			errInvalidArgument,
+			redirectCode,
+		)
+	}
+
+	return nil
+}
diff --git a/router.go b/router.go
index 74ef56a..883d574 100755
--- a/router.go
+++ b/router.go
@@ -376,6 +376,10 @@ func (ro *Router) ConfigurationAt(urlTmplStr string) Config {
 // be compatible with the existing responder's properties. A newly created
 // responder is configured with the values in the URL template.
 func (ro *Router) SetImplementationAt(urlTmplStr string, impl Impl) {
+	if err := checkImpl(impl); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var _r, err = ro._Responder(urlTmplStr)
 	if err != nil {
 		panicWithErr("%w", err)
@@ -428,6 +432,10 @@ func (ro *Router) SetURLHandlerFor(
 	urlTmplStr string,
 	handler Handler,
 ) {
+	if err := checkHandler(methods, handler); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var _r, err = ro._Responder(urlTmplStr)
 	if err != nil {
 		panicWithErr("%w", err)
@@ -478,6 +486,10 @@ func (ro *Router) URLHandlerOf(method string, urlTmplStr string) Handler {
 // responder to the next path segment of the request's URL, the handler for a
 // not-found resource is called.
 func (ro *Router) WrapRequestPasserAt(urlTmplStr string, mws ...Middleware) {
+	if err := checkMiddlewares(mws); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var _r, err = ro._Responder(urlTmplStr)
 	if err != nil {
 		panicWithErr("%w", err)
@@ -499,6 +511,10 @@ func (ro *Router) WrapRequestPasserAt(urlTmplStr string, mws ...Middleware) {
 // called only when the responder is the one to handle the request and has at
 // least one HTTP method handler.
 func (ro *Router) WrapRequestHandlerAt(urlTmplStr string, mws ...Middleware) {
+	if err := checkMiddlewares(mws); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var _r, err = ro._Responder(urlTmplStr)
 	if err != nil {
 		panicWithErr("%w", err)
@@ -564,6 +580,10 @@ func (ro *Router) SetPermanentRedirectCodeAt(
 	urlTmplStr string,
 	code int,
 ) {
+	if err := checkPermanentRedirectCode(code); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var _r, err = ro._Responder(urlTmplStr)
 	if err != nil {
 		panicWithErr("%w", err)
@@ -620,6 +640,10 @@ func (ro *Router) SetRedirectHandlerAt(
 	urlTmplStr string,
 	handler RedirectHandler,
 ) {
+	if err := checkRedirectHandler(handler); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var _r, err = ro._Responder(urlTmplStr)
 	if err != nil {
 		panicWithErr("%w", err)
@@ -677,6 +701,10 @@ func (ro *Router) WrapRedirectHandlerAt(
 	urlTmplStr string,
 	mws ...func(RedirectHandler) RedirectHandler,
 ) {
+	if err := checkRedirectHandlerWrappers(mws); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var _r, err = ro._Responder(urlTmplStr)
 	if err != nil {
 		panicWithErr("%w", err)
@@ -709,6 +737,10 @@ func (ro *Router) WrapRedirectHandlerAt(
 // 		http.StatusMovedPermanently,
 // 	)
 func (ro *Router) RedirectRequestAt(urlTmplStr, url string, redirectCode int) {
+	if err := checkRedirect(url, redirectCode); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var _r, err = ro._Responder(urlTmplStr)
 	if err != nil {
 		panicWithErr("%w", err)
@@ -745,6 +777,10 @@ func (ro *Router) RedirectAnyRequestAt(
 	url string,
 	redirectCode int,
 ) {
+	if err := checkRedirect(url, redirectCode); err != nil {
+		panicWithErr("%w", err)
+	}
+
 	var _r, err = ro._Responder(urlTmplStr)
 	if err != nil {
 		panicWithErr("%w", err)
-- 
2.43.0


From e87881f65f86e5575a096c426837a70af8db28be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:08 +0000
Subject: [PATCH 34/34] fix: named class ends the character class it's in

---
 template.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/template.go b/template.go
index 640a139..2fea720 100755
--- a/template.go
+++ b/template.go
@@ -828,6 +828,11 @@ func dynamicSegment(tmplStrSlc string) (
 			}
 
 			if chClsIdx >= 0 {
+				if l := namedClassLen(tmplStrSlc[i:]); l > 0 {
+					i += l - 1
+					continue
+				}
+
 				if ch == ']' {
 					var d = i - chClsIdx
 					if d > 1 && !(d == 2 && tmplStrSlc[i-1] == '^') {
@@ -870,6 +875,26 @@ func dynamicSegment(tmplStrSlc string) (
 	return
 }
 
+// namedClassLen returns the length of the named class, like "[:alpha:]", at the
+// beginning of the string inside of a character class. If there is none, zero
+// is returned.
+func namedClassLen(str string) int {
+	if !strings.HasPrefix(str, "[:") {
+		return 0
+	}
+
+	var i = 2
+	for i < len(str) && (str[i] == '^' || str[i] >= 'a' && str[i] <= 'z') {
+		i++
+	}
+
+	if !strings.HasPrefix(str[i:], ":]") {
+		return 0
+	}
+
+	return i + 2
+}
+
 // groupAlternatives puts the pattern into a non-capturing group when it has
 // alternatives or flags that are not in a group already. Otherwise, an anchor
 // added to the pattern would be applied only to the first or last alternative,
@@ -895,6 +920,11 @@ func groupAlternatives(pattern string) string {
 		}
 
 		if chClsIdx >= 0 {
+			if l := namedClassLen(pattern[i:]); l > 0 {
+				i += l - 1
+				continue
+			}
+
 			if ch == ']' {
 				var d = i - chClsIdx
 				if d > 1 && !(d == 2 && pattern[i-1] == '^') {
-- 
2.43.0

