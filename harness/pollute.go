package main

// Requests to responders that have nothing to do with the judged ones. They
// use whatever a request can use, and nothing of it may be seen by others.

import (
	"net/http"
	"sync"

	nm "github.com/shohruhadham/nanomux"
)

const polluters = 18

var pollution struct {
	sync.Once
	hs [polluters]http.Handler
	qs [polluters]Req
}

func pollute(i int) {
	pollution.Do(preparePollution)
	var r, err = makeRequest(pollution.qs[i])
	if err != nil {
		panic(err)
	}
	defer func() { recover() }() // one of the handlers panics
	pollution.hs[i].ServeHTTP(newRec(), r)
}

func preparePollution() {
	type w = http.ResponseWriter
	var fill = func(ok bool) nm.Handler {
		return func(w w, r *http.Request, a *nm.Args) bool {
			for k := 0; k < 12; k++ {
				a.Set(keyOf(k), "pollution")
			}
			return ok
		}
	}
	var red = func(next nm.RedirectHandler) nm.RedirectHandler { return next }
	var ro, ho2, deep = nm.NewRouter(), nm.NewDormantHost(`https://other.{a:\d}.{b:\d}.{c:\d}.test`), nm.NewDormantResource("/{a}/{b:x*}/{c}/{d}/{e}/{id}/{name}/{x}")
	ro.ResourceUsingConfig("/", nm.Config{SubtreeHandler: true}).SetHandlerFor("GET", fill(true))
	for _, t := range []string{"/v/{a}/{b}/{c}/{d}/{id}/{name}/{x}", "/v/{a}/{b}", "/w{a}/{b}/ts/"} {
		ro.Resource(t).SetHandlerFor("GET", fill(true))
		ro.Resource(t).SetSharedData("pollution")
	}
	ro.Resource("/f/{a}").SetHandlerFor("GET POST", fill(false))
	ro.Resource("/p/{a}").SetHandlerFor("GET", func(w, *http.Request, *nm.Args) bool { panic("pollution") })
	ro.Resource("/r/{a}").RedirectAnyRequestTo("/elsewhere", 308)
	ro.Resource("/r/{a}").WrapRedirectHandler(red)
	ro.Resource("https:///s/{a}").SetHandlerFor("GET", fill(true))
	ro.ResourceUsingConfig("/n/{a}", nm.Config{SubtreeHandler: true, LenientOnUncleanPath: true, LenientOnTrailingSlash: true}).SetHandlerFor("GET", fill(true))
	ro.Resource("/n/{a}").Resource("{b}").SetHandlerFor("POST", fill(true))
	ho2.SetConfiguration(nm.Config{SubtreeHandler: true})
	ho2.SetHandlerFor("GET", fill(true))
	ho2.Resource("{d}").SetHandlerFor("GET", fill(true))
	deep.SetHandlerFor("GET", nm.FnHrWithArgs(func(w w, r *http.Request) { fill(true)(w, r, nm.ArgsFrom(r)) }))
	ro.RegisterHost(ho2)

	const h, o = "pollution.test", "other.1.2.3.test"
	for i, x := range []struct {
		h http.Handler
		q Req
	}{
		{ro, Req{Method: "GET", Host: h, Target: "/"}},
		{ro, Req{Method: "GET", Host: h, Target: "/x/y/z/"}},
		{ro, Req{Method: "GET", Host: h, Target: "/v/1/2/3/4/5/6/7"}},
		{ro, Req{Method: "GET", Host: h, Target: "/v/1/2/3/4/5/6/7/8/9"}},
		{ro, Req{Method: "GET", Host: h, Target: "//v/./1//2/../2"}},
		{ro, Req{Method: "GET", Host: h, Target: "/w1/2/ts"}},
		{ro, Req{Method: "POST", Host: h, Target: "/f/1"}},
		{ro, Req{Method: "GET", Host: h, Target: "/p/1"}},
		{ro, Req{Method: "GET", Host: h, Target: "/r/1/2/3"}},
		{ro, Req{Method: "GET", Host: h, Target: "/s/1"}},
		{ro, Req{Method: "GET", Host: h, Target: "/n/1//2/"}},
		{ro, Req{Method: "GET", Host: h, Target: "/n/1/2", Raw: "/n/%zz/2"}},
		{ro, Req{Method: "PUT", Host: h, Target: "/v/%31/2"}},
		{ro, Req{Method: "GET", Host: o, TLS: true, Target: "/"}},
		{ro, Req{Method: "GET", Host: o, Target: "/1/2"}},
		{ho2, Req{Method: "GET", Host: o, TLS: true, Target: "/1"}},
		{deep, Req{Method: "GET", Host: h, Target: "/1"}},
		{deep, Req{Method: "OPTIONS", Host: h, Target: "/1"}},
	} {
		pollution.hs[i], pollution.qs[i] = x.h, x.q
	}
}
