#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below.

Usage: python3 tools/gen.py IDS...   (the ids of the properties that have a check; none means all)
"""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mechanism, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, technique=technique, note=note))


# ---------------------------------------------------------------- templates
p("T01", "Template syntax: valid templates parse, malformed ones are rejected",
  "Parsing a host or path segment template written by the documented syntax (name, static, regexp and wildcard segments, escapes, repeated names, values with colons) succeeds and yields a template with that name, those value names and that classification (static, wildcard, has pattern). A string that breaks the syntax (unclosed or stray braces, an empty name or pattern, two wildcards, a repeated name with a different pattern, an empty string, an invalid regular expression) is rejected with an error. No string whatever makes the parser panic or hang, and TryToParse and Parse agree on every string.",
  ["inputs"], "Every template string: the ones rendered from a grammar of valid templates, their corruptions, and arbitrary strings over the syntax's special characters.",
  "The tests parse a fixed table of templates; the syntax admits unboundedly many nestings of escapes, braces inside character classes, repeats and names.",
  ["template.go"], [("TryToParse/Parse", "template.go"), ("dynamicSegment, templateNameAndContent, splitIntoSegments helpers", "template.go")],
  "return values of TryToParse and Parse, Template accessors",
  "grammar-based random generation with mutation, against an abstract-syntax reference", "")
p("T02", "A template match is sound",
  "When a template matches a string, putting the returned values back in place of the template's dynamic segments gives exactly the string, each value is wholly in the language of its own pattern (every alternative anchored), all occurrences of a repeated name have the same value, and a value that is already known for a name is not contradicted. When it doesn't match, the passed values are returned unchanged.",
  ["inputs"], "Every valid template and every string, with and without values passed in.",
  "The tests try a few dozen template-string pairs; anchoring, alternation, repetition and prefix/suffix overlap errors need a particular pair.",
  ["template.go"], [("Template.Match", "template.go")], "result of Template.Match",
  "random templates x strings, validity predicate over the match (reference decompositions)", "")
p("T03", "A template matches every string made by it",
  "A string made from a template by filling each dynamic segment with a value of its pattern's language (any text that isn't empty for the wildcard, the same value for a repeated name) is matched, and the values are found again, whenever only one assignment of values explains the string and it is found without looking back (each pattern taking as much as it can). Apply and Match are inverse: Match(Apply(values)) returns the values.",
  ["inputs"], "Every valid template and every assignment of values whose string has a single decomposition that needs no looking back.",
  "The tests try a few strings per template; completeness quantifies over all values.",
  ["template.go"], [("Template.Match", "template.go"), ("Template.TryToApply/Apply", "template.go")], "Match and Apply results",
  "round trip over generated templates and value assignments", "")
p("T04", "Applying values succeeds exactly when they are complete and valid",
  "TryToApply returns an error exactly when a value of the template is missing (unless missing values are to be ignored) or isn't wholly matched by its pattern, and otherwise returns the string with the values in place; Apply agrees and panics instead of returning an error. The passed values are never changed.",
  ["inputs"], "Every valid template, every map of values: complete, with missing, empty, invalid, or extra values; both settings of ignoring missing values.",
  "The tests apply a few maps; the rule is over all partial and invalid maps.",
  ["template.go"], [("Template.TryToApply/Apply", "template.go")], "TryToApply result and error",
  "random value maps against a reference evaluator", "")
p("T05", "Templates survive being printed, and similarity is consistent",
  "A template's string form (and unescaped content, with its name) parses back to a template that matches the same strings with the same values. Similarity of two templates is symmetric, a template is the same as itself, and two templates are reported the same exactly when name, shape and value names are the same; templates that differ only in names or value names are reported so.",
  ["inputs"], "Every pair of valid templates, most of them made from one another by renaming, reordering or changing a segment.",
  "The tests compare a table of pairs; the laws are over all pairs.",
  ["template.go"], [("Template.String/Content/UnescapedContent", "template.go"), ("Template.SimilarityWith", "template.go")], "String, Content, SimilarityWith results",
  "round trip and algebraic laws over generated template pairs", "")
# ------------------------------------------------------------------ routing
p("R01", "Path segments are routed by priority, with the right values",
  "A request's path is matched segment by segment against the sibling resources: a static template that equals the segment wins over templates with patterns, which are tried in registration order and win over the wildcard. The responder at the end of the path handles the request, with exactly the values found in the URL; when a segment matches no sibling (and no subtree handler is above), the request is answered with 404.",
  ["programs", "inputs"], "Every tree of resources and every request path.",
  "The tests walk fixed trees; priority and value errors depend on the combination of siblings and the segment.",
  ["resource.go", "host.go", "requesthandler.go", "responder.go", "template.go"], [("passRequestToChildResource", "responder.go"), ("keepResourceTemplate / registration of kinds", "responder.go"), ("HostPathValues", "requesthandler.go")],
  "the handler called, its HostPathValues, Host and CurrentResource",
  "random resource trees and requests against a reference router (differential)", "")
p("R02", "Requests are dispatched to the right host",
  "A request goes to the host whose static template equals its host name, else to the first host in registration order whose template matches it, else to the resource tree without a host; the port is ignored, and the host's values are available to all handlers below. With neither, the response is 404.",
  ["programs", "inputs"], "Every set of hosts, with or without a hostless root, and every Host header.",
  "The tests use a handful of hosts.", ["router.go", "host.go", "utils.go"], [("Router.passRequest", "router.go"), ("splitHostAndPath/host without port", "utils.go")],
  "the handler called and its values", "random host sets and Host headers against a reference router", "")
p("R03", "Subtree handlers take what nothing below them handles",
  "A request that no resource below responds to is handled by the nearest responder on the way that is configured as a subtree handler and can handle requests, with the remaining path given exactly (escaped); responders that aren't subtree handlers never handle paths below them.",
  ["programs", "inputs"], "Every tree with subtree handlers at any place and every path that goes below them.",
  "The tests have one or two subtree handlers; which one responds and what the remaining path is depends on the shape of the tree and of the path.",
  ["requesthandler.go", "resource.go", "host.go"], [("RemainingPath", "requesthandler.go"), ("handleOrPassRequest, ServeHTTP of Host and Resource", "resource.go, host.go")],
  "handler called, RemainingPath", "random trees and paths against a reference router", "")
p("R04", "Percent-encoding doesn't change routing",
  "Two request targets whose segments decode to the same strings are routed to the same responder with the same (decoded) values, whatever is escaped and in whichever case of hexadecimal digits; an escaped slash is a part of its segment and never a separator.",
  ["programs", "inputs"], "Every tree and every two encodings of the same segments.",
  "The tests use few escaped paths.", ["requesthandler.go", "utils.go", "template.go"], [("nextPathSegment", "requesthandler.go")],
  "outcome for both encodings", "metamorphic: re-encoding the request, plus the reference router", "")
p("R05", "Methods: handler, Allow, OPTIONS and not-allowed responses",
  "A responder handles a request with the handler of its method; OPTIONS is answered with an Allow header that lists exactly the methods that have handlers and OPTIONS; a method without a handler gets 405 with the same Allow header, or the not-allowed handler if there is one; a responder without any handler answers 404. AllowedHTTPMethods agrees with the Allow header.",
  ["programs", "inputs"], "Every assignment of handlers to methods (custom methods too) and every request method.",
  "The tests check a few methods on a few resources.", ["requesthandler.go", "responder.go"], [("_RequestHandlerBase / handlers", "requesthandler.go"), ("AllowedHTTPMethods", "responder.go")],
  "status, Allow header, handler called", "random method tables against a reference", "")
p("R06", "A secure responder never handles an insecure request",
  "A responder whose URL template has the https scheme handles only requests made over TLS: an insecure request is answered with 404, or is redirected to the same URL with https when the responder is configured to redirect. Responders with http handle both.",
  ["programs", "inputs"], "Every tree with secure and insecure responders, every path, over TLS or not.",
  "The tests check single responders; the rule must hold at every level and in combination with trailing slashes and unclean paths.",
  ["requesthandler.go", "responder.go"], [("_RequestHandlerBase.handleRequest / https check", "requesthandler.go")], "handler called or redirect location",
  "random trees and requests against a reference router", "")
p("R07", "Trailing slash behaviour follows the template and the configuration",
  "When the request path differs from the responder's template only in the trailing slash, the request is redirected to the template's form by default, answered with 404 by a responder strict on trailing slash, and handled as is by a lenient one or one that handles the path as is. When they agree it's handled.",
  ["programs", "inputs"], "Every tree with every combination of the properties, with and without trailing slashes.",
  "The tests enumerate the settings on fixed URLs only.", ["requesthandler.go", "responder.go"], [("trailing slash check of the default request handler", "requesthandler.go")],
  "handler called or redirect location", "random trees and requests against a reference router", "")
p("R08", "Unclean paths are redirected or handled as configured",
  "A request whose path has empty or dot segments is redirected to the clean path (other escapes and the query kept) unless the responder is lenient on unclean paths or handles the path as is; it's never handled by a responder other than the one the clean path belongs to.",
  ["programs", "inputs"], "Every tree and every unclean spelling of a path.", "The tests use a few unclean paths.",
  ["requesthandler.go", "utils.go", "router.go"], [("cleanPath", "utils.go"), ("unclean path check", "requesthandler.go")], "handler called or redirect location",
  "random unclean spellings against a reference router", "")
p("R09", "Redirects converge on the canonical URL",
  "Following the automatic redirects (scheme, unclean path, trailing slash) of any request ends, after at most one redirect, at a request that the same responder handles with the same values; no redirect loops, leaves the host or changes the query.",
  ["programs", "inputs"], "Every tree and request.", "The tests look only at the first redirect of a few requests.",
  ["requesthandler.go", "utils.go"], [("redirect of the default request handler", "requesthandler.go")], "the chain of responses",
  "random trees; the Location is followed until it ends (invariant over the chain)", "")
p("R10", "Every request gets exactly one response and no panic",
  "For any router and any request that net/http can parse, the router returns without panicking and has written exactly one status: that of a handler, or a not-found, not-allowed, options or redirect response.",
  ["programs", "inputs"], "Every router and every parseable request: unusual targets, hosts, methods, escapes.", "Tests send well-formed requests.",
  ["router.go", "host.go", "resource.go", "requesthandler.go", "utils.go"], [("ServeHTTP", "router.go, host.go, resource.go")], "recorded response",
  "fuzzing of requests (structured and byte-level) over random routers", "")
p("R11", "Configured redirects cover the responder, or its whole subtree",
  "A responder set to redirect requests answers them with the given code and URL, with the remaining path appended when it is a subtree handler; one set to redirect any request does so for every request that reaches it or anything below it, before any check or handler of the subtree. Nothing else is redirected.",
  ["programs", "inputs"], "Every tree with redirecting responders and every path at, below and beside them.", "The tests use single redirects.",
  ["responder.go", "requesthandler.go", "utils.go"], [("RedirectRequestTo/RedirectAnyRequestTo", "responder.go")], "status and Location",
  "random trees and requests against a reference router", "")
p("R12", "Redirect codes, redirect handlers and the not-found handler are the set ones",
  "Automatic redirects use the responder's permanent redirect code, else the common one; a responder's redirect handler, else the common one, gets every redirect with its URL and code, and the wrappers apply in order; every not-found response comes from the common not-found handler.",
  ["configurations", "inputs"], "Every combination of global and per-responder customisation, and every request.", "The tests set one at a time.",
  ["config.go", "requesthandler.go", "responder.go", "utils.go"], [("SetPermanentRedirectCode, SetCommonRedirectHandler, SetHandlerForNotFound, Wrap...", "responder.go, requesthandler.go, utils.go")],
  "status codes, handler traces", "random customisations against a reference", "")
p("R13", "Hosts and resources serve requests directly as the router does",
  "A host or a resource used directly as an http.Handler answers a request whose URL belongs to it just as the router it's registered in: same responder, values, remaining path and redirects; requests for other hosts or paths get 404.",
  ["programs", "inputs"], "Every tree, every host and resource of it, every request.", "The tests call ServeHTTP of a few resources.",
  ["host.go", "resource.go"], [("Host.ServeHTTP, Resource.ServeHTTP", "host.go, resource.go")], "outcome of both",
  "differential: the router against its own hosts and resources", "")
exec(open(os.path.join(HERE, "tools", "props_bm.py")).read())


def main():
    ids = sys.argv[1:] or [q["id"] for q in P]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps({
                "id": q["id"], "title": q["title"], "statement": q["statement"],
                "quantifier": {"over": q["over"], "text": q["text"]},
                "why_tests_cant": q["why"],
                "anchors": {"files": q["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in q["mechanism"]],
                            "observe_at": [q["observe"]]},
            }, ensure_ascii=False) + "\n")
    checks, na = [], []
    for q in P:
        if q["id"] not in ids:
            na.append({"property": q["id"], "reason": "the check isn't finished yet"})
            continue
        checks.append({
            "property": q["id"],
            "quick_cmd": "./run.sh " + q["id"],
            "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + q["id"],
            "technique": "property-based testing: " + q["technique"],
            "level": "exploration",
            "level_note": q["note"] or "Sampled: the property held on every generated case (counts, classes and samples in the evidence); it trusts the reference semantics in /verif/harness (model.go, spec.go) and Go's net/http. Outcomes the documentation leaves open are generated but not judged.",
        })
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks are needed in /repo: everything is observed through the public API. Every check builds the harness against /repo's working tree."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
