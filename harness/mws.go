package main

// Middlewares and handlers that leave traces, and small implementations.

import (
	"net/http"

	nm "github.com/shohruhadham/nanomux"
)

func recOf(w http.ResponseWriter) *Rec {
	var r, _ = writers(w)
	return r
}

// traceMw leaves a trace on the way in and on the way out.
func traceMw(tag string) nm.Middleware {
	return func(next nm.Handler) nm.Handler {
		return func(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
			recOf(w).ev("+" + tag)
			var ok = next(w, r, a)
			recOf(w).ev("-" + tag)
			return ok
		}
	}
}

func traceRMw(tag string) func(nm.RedirectHandler) nm.RedirectHandler {
	return func(next nm.RedirectHandler) nm.RedirectHandler {
		return func(w http.ResponseWriter, r *http.Request, u string, code int, a *nm.Args) bool {
			recOf(w).ev("+" + tag)
			var ok = next(w, r, u, code, a)
			recOf(w).ev("-" + tag)
			return ok
		}
	}
}

// tagHandler leaves its tag and responds.
func tagHandler(tag string) nm.Handler {
	return func(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
		recOf(w).ev("=" + tag)
		w.WriteHeader(http.StatusOK)
		return true
	}
}

func tagRedirect(tag string) nm.RedirectHandler {
	return func(w http.ResponseWriter, r *http.Request, u string, code int, a *nm.Args) bool {
		recOf(w).ev("=" + tag)
		http.Redirect(w, r, u, code)
		return true
	}
}

type implGet struct{ n int }

func (i *implGet) HandleGet(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	recOf(w).ev("=impl get")
	w.WriteHeader(http.StatusOK)
	return true
}

type implPostNA struct{ n int }

func (i *implPostNA) HandlePost(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	recOf(w).ev("=impl post")
	w.WriteHeader(http.StatusOK)
	return true
}

func (i *implPostNA) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nm.Args) bool {
	recOf(w).ev("=impl na")
	w.WriteHeader(http.StatusMethodNotAllowed)
	return true
}

type implNone struct{ n int }

var theGet, thePostNA, theNone = &implGet{}, &implPostNA{}, &implNone{}

func simpleImpl(s string) nm.Impl {
	switch s {
	case "get":
		return theGet
	case "postna":
		return thePostNA
	}
	return theNone
}
