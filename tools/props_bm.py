# ----------------------------------------------------------------- building
p("B01", "All ways of building the same tree give the same router",
  "The same hosts, resources, configurations and handlers give the same responses and the same introspection results however they are put together: with the getters from the router, a host or a parent, with dormant responders registered in any order (bottom-up or top-down, directly or under a prefix), with URL templates that create the responders in between, or with the methods that take a URL or path template.",
  ["histories", "programs", "inputs"], "Every tree, every way and order of building it (chosen anew for each node), every request.",
  "Each test builds with one method at a time; the tree code has many paths (merge, implicit creation, registration under a prefix) that must agree in all their combinations.",
  ["router.go", "host.go", "resource.go", "responder.go"], [("registerResource, registerResourceUnder, replaceChildResource, passChildResourcesTo", "responder.go"), ("RegisterHost, ResourceUsingConfig", "router.go")],
  "responses and introspection of the built routers", "metamorphic: one tree built in several generated ways, plus the reference router", "")
p("B02", "Conflicting or malformed registrations are rejected and change nothing",
  "A call that would make the tree ambiguous or inconsistent panics: a duplicate name or equivalent template among siblings, a second wildcard, a value name used twice on a path, registering a responder that already has another parent, a URL template that conflicts with the place it is registered in, other scheme, trailing slash or configuration than the existing responder has; and so does a nil, empty or malformed argument. After it the router answers as before and can still be extended.",
  ["histories", "inputs"], "Every tree and every conflicting call made at every place in it.",
  "The tests try each conflict once on a small tree.", ["router.go", "host.go", "resource.go", "responder.go", "config.go"],
  [("validate, checkNamesAreUnique, checkChildResource..., registration methods", "responder.go")], "panic, and responses and introspection afterwards",
  "stateful: generated conflicting calls on generated trees; responses before and after are compared", "")
p("B03", "Replacing an implicitly created responder keeps its subtree",
  "When a resource or host with a template equal to an implicitly created (dormant) one is registered, it takes its place with all of its descendants, merging recursively where both have children; everything that was reachable before is reachable at the same URLs after it, nothing is duplicated or lost, and what has been replaced or hasn't been kept is no longer connected to the tree.",
  ["histories", "programs"], "Every tree split into two parts built apart in any order and merged.",
  "The tests merge two or three small trees.", ["responder.go", "router.go"], [("replaceChildResource, checkChildResourceToKeep, passChildResourcesTo", "responder.go")],
  "responses and introspection after the merge", "random trees split into overlapping dormant parts, merged and compared with the whole", "")
p("B04", "Introspection agrees with the tree",
  "Parents, children, hosts, routers, names, templates, URLs' schemes and trailing slashes, has-child and has-any-child answers of all responders agree with one another and with what was registered: every responder is the parent of its children and of nothing else, walks up end at the router, and handlers, shared data, configuration and redirect settings read back as set.",
  ["histories", "programs"], "Every tree however built, every responder of it.", "The tests read a few attributes of small trees.",
  ["responder.go", "router.go", "host.go", "resource.go"], [("accessors", "responder.go, host.go, router.go")], "accessor results",
  "invariants over all responders of generated trees", "")
p("B05", "Lookups and path-based setters reach the responder they name",
  "Looking up a host or resource with a URL or path template (by the template, or by only the name of a named one) from the router, a host or an ancestor returns the very responder registered there or nil, and changes nothing (only an implicitly created one, not configured yet, takes the scheme and trailing slash it's looked up with); a method that takes a URL or path template acts on exactly that responder, as the same method of the responder itself does, and panics or creates it when it's documented so.",
  ["histories", "programs", "inputs"], "Every tree, every responder of it and every way to name it; names and paths that don't exist.",
  "The tests look up a few resources.", ["router.go", "host.go", "responder.go", "utils.go"], [("registeredResourceUnder, RegisteredResource, ...At methods", "responder.go, router.go")],
  "returned responders, accessors afterwards", "random lookups and setters against the tree's own bookkeeping", "")
p("B06", "URL building is the inverse of routing",
  "The URL made by a responder from valid values is the URL that the router routes back to that responder with the same values, with the responder's scheme, host and trailing slash; with a missing or invalid value an error is returned.",
  ["programs", "inputs"], "Every tree, every responder and all values, characters that need escaping too.", "The tests build a few URLs.",
  ["responder.go", "template.go", "host.go", "resource.go"], [("URL", "responder.go"), ("responderURL/TryToApply", "template.go")], "URL result and the routed request",
  "round trip: values to URL to request to values", "")
p("B07", "Configuration composes consistently",
  "A configuration that is set, read back and shared keeps its meaning: setting one property doesn't lose the others, HandlesThePathAsIs means both leniencies, contradictory configurations are rejected, the getters agree with the configuration however it was set (with the constructor, by getters using config, by setting it later or in bulk), and every setting shows in how requests are answered.",
  ["configurations", "histories"], "Every combination of configuration properties, URL template forms and ways of setting.", "The tests use a fixed list of configurations.",
  ["config.go", "responder.go"], [("Config, config.asSet/has/set, SetConfiguration, configCompatible", "config.go, responder.go")], "Configuration, Is... and Has... accessors, panics, responses",
  "random configuration histories against a reference algebra", "")
p("B08", "Bulk setters reach every descendant without overriding settings",
  "Setting shared data or configuration for all responders of a router or for a subtree sets it for exactly those responders of that subtree (the setter itself not included) that have none set, and wrapping for all or a subtree wraps each of its responders once; nothing outside the subtree is changed.",
  ["histories", "programs"], "Every tree, every subtree root and any sequence of bulk setters.", "The tests check the setters on one small tree.",
  ["router.go", "responder.go"], [("...ForSubtree, ...ForAllHostsAndResources, Wrap...Subtree..., WrapAll...", "responder.go, router.go")], "accessors and traces afterwards",
  "random sequences of bulk setters against a reference", "")
# --------------------------------------------------------------- middleware
p("M01", "Middlewares run in order, each in its own scope",
  "Of the middlewares of a responder or router, each is called exactly once for a request that passes through what it wraps, the last wrapped is the outermost; those of request passers run from the router down to the responder that handles, those of request handlers and of a method's handler run only at the responder that handles the request. Middlewares of other responders are never called.",
  ["programs", "inputs", "histories"], "Every tree with middlewares added in any order by any wrapping method, and every request.", "The tests wrap one or two levels.",
  ["middleware.go", "responder.go", "requesthandler.go", "router.go"], [("WrapRequestPasser, WrapRequestHandler, WrapHandlerOf, ...At, ...Subtree..., WrapAll...", "responder.go, router.go")],
  "trace of calls", "random middleware placements against a reference trace", "")
p("M02", "What a handler or middleware returns decides what follows",
  "A middleware that responds without calling the next handler ends the request: nothing below it runs and no other response is written. A handler that returns false lets the request be answered as if it wasn't handled (not found), while one that returns true ends it; a panic in a handler propagates to the caller and doesn't affect the following requests.",
  ["programs", "inputs", "histories"], "Every tree, every place of a stopping middleware or of a panicking handler, and every sequence of requests.",
  "The tests stop at one place.", ["middleware.go", "requesthandler.go", "responder.go", "router.go"], [("handleOrPassRequest, ServeHTTP", "router.go, host.go, resource.go")], "trace and response",
  "random drop points and panics against a reference trace", "")
p("M03", "net/http handlers and middlewares convert faithfully",
  "An http.Handler, an http.HandlerFunc or a func(http.Handler) http.Handler converted to a handler or middleware is called once with the same request and response writer for each request and, where asked for, finds the very arguments of that request in the request's context; changes that a middleware makes to the request reach what it wraps.",
  ["programs", "inputs"], "Every stack of converted and native handlers and middlewares.", "The tests convert one handler of each kind.",
  ["middleware.go", "requesthandler.go"], [("Hr, FnHr, HrWithArgs, FnHrWithArgs, ArgsFrom, Mw", "requesthandler.go, middleware.go")], "trace and arguments",
  "random stacks of converters against a reference trace", "")
p("M04", "Methods of an implementation become exactly its handlers",
  "A type set as an implementation handles a request with its Handle method named for the request's HTTP method; methods of other names or signatures are never used, the not-allowed one is used for unsupported methods, and the responder's allowed methods are those of the implementation. Setting another implementation replaces the handlers.",
  ["programs", "inputs", "histories"], "Every combination of handler methods in a type and every sequence of settings.", "The tests have two or three types.",
  ["requesthandler.go", "responder.go"], [("detectHTTPMethodHandlersOf, requestHandlerBase", "requesthandler.go"), ("SetImplementation", "responder.go")], "handler called, AllowedHTTPMethods, HandlerOf",
  "types combined from mixins, random histories of setters against a reference table", "")
p("M05", "Request arguments tell the truth",
  "In every handler and middleware the arguments give the values of the URL, the host, the current responder, its shared data and implementation and the remaining path as they are at that point of the path, and what is set under a key is found under that key by everything later in the same request only.",
  ["programs", "inputs", "histories"], "Every tree, every request and every sequence of argument operations.", "The tests read the arguments in one handler.",
  ["requesthandler.go", "utils.go"], [("Args, HostPathValues, RemainingPath, Set, Get", "requesthandler.go")], "accessors of Args",
  "random trees and requests against a reference; Set/Get against a map", "")
p("M06", "Requests don't affect one another",
  "Requests served one after another, nested in one another, or concurrently get the responses and arguments they'd get alone; serving them is free of data races.",
  ["schedules", "histories", "inputs"], "Every set of requests and every interleaving the Go scheduler gives.", "The tests send one request at a time.",
  ["requesthandler.go", "router.go", "host.go", "resource.go"], [("args pool (getArgs, putArgsInPool)", "requesthandler.go")], "responses and arguments of concurrent requests",
  "random request batches, concurrent and re-entrant under the race detector, differential against the same requests alone",
  "Sampled schedules: the harness runs the requests of a case concurrently from several goroutines, with yield points in handlers and middlewares, under Go's race detector, and compares each outcome with the one it has alone; the scheduler isn't controlled.")
