#!/usr/bin/env python3
"""Writes harness/impls_gen.go: types combined from methods, for M04."""
import random, os

# name: (Go method name, good signature?, pointer receiver?, HTTP method or '!' or None)
GOOD = "(w http.ResponseWriter, r *http.Request, a *nm.Args) bool"
BADS = ["()", "(w http.ResponseWriter, r *http.Request) ", "(w http.ResponseWriter, r *http.Request, a *nm.Args) ",
        "(w http.ResponseWriter, r *http.Request, a nm.Args) bool", "(w http.ResponseWriter, r *http.Request, a *nm.Args, x ...int) bool",
        "(w http.ResponseWriter, r *http.Request, a *nm.Args) (bool, error)", "(w *http.ResponseWriter, r *http.Request, a *nm.Args) bool",
        "(a *nm.Args, w http.ResponseWriter, r *http.Request) bool"]
MIX = []
def mix(name, method, http, ptr=False, bad=None):
    MIX.append((name, method, http, ptr, bad))
for m in ["Get", "Post", "Put", "Delete", "Head", "Patch", "Options", "Connect", "Trace", "Custom", "Lock", "X", "getMoved" ]:
    mix("v" + m, "Handle" + m, m.upper())
for m in ["Get", "Post", "Share", "Custom", "Options", "Y"]:
    mix("p" + m, "Handle" + m, m.upper(), ptr=True)
mix("vNA", "HandleNotAllowedMethod", "!")
mix("pNA", "HandleNotAllowedMethod", "!", ptr=True)
for i, m in enumerate(["Get", "Put", "Options", "NotAllowedMethod", "Custom", "Copy", "Link", "Post"]):
    mix("b%d" % i, "Handle" + m, None, ptr=i % 2 == 1, bad=i)
# Names that look like others.
for m in ["Method", "Handle", "AllowedMethod", "NotAllowed", "MethodNotAllowed", "GetMethod", "Not", "All", "Http", "Request", "Ge", "M1", "NotAllowedMethods"]:
    mix("x" + m, "Handle" + m, m.upper(), ptr=len(m) % 3 == 0)
# Names that have no prefix.
mix("n0", "Get", None); mix("n1", "PreHandleGet", None); mix("n2", "handlePost", None); mix("n3", "ServeGet", None)
mix("n4", "NotAllowedMethod", None); mix("n5", "HANDLEPUT", None); mix("n6", "Hand", None)
# A lot of methods, so that there are more than fifteen.
MANY = ["Acl", "Bind", "Checkin", "Checkout", "Copy", "Label", "Link", "Merge", "Mkcol", "Move", "Notify", "Orderpatch", "Propfind", "Purge", "Rebind", "Report", "Search", "Unlink", "Unlock"]
for m in MANY:
    mix("v" + m, "Handle" + m, m.upper())

out = ["package main", "", "// Code generated by tools/genimpls.py. DO NOT EDIT.", "", "import (", '\t"net/http"', "", '\tnm "github.com/shohruhadham/nanomux"', ")", ""]
for name, method, http, ptr, bad in MIX:
    t = "mx_" + name
    recv = ("*" if ptr else "") + t
    out.append("type %s struct{ id string }" % t)
    if bad is None:
        tag = http or "never"
        out.append("func (i %s) %s%s { return implBody(w, r, a, i.id, %r) }".replace("%r", '"%s"') % (recv, method, GOOD, tag))
    else:
        sig = BADS[bad]
        ret = ""
        if sig.endswith("bool"): ret = "; return true"
        if sig.endswith("(bool, error)"): ret = "; return true, nil"
        out.append("func (i %s) %s%s { implBad(i.id)%s }" % (recv, method, sig, ret))
    out.append("")

rnd = random.Random(20240601)
combos = []
byname = {m[0]: m for m in MIX}
def ok(names):
    ms = [byname[n][1] for n in names]
    return len(set(ms)) == len(ms)
def http_unique(names):
    # HandleGet and HandleGET would be the same method.
    ms = [byname[n][1].upper() for n in names]
    return len(set(ms)) == len(ms)
combos.append([])
combos.append(["vNA"]); combos.append(["pNA"]); combos.append(["vOptions"]); combos.append(["b0"]); combos.append(["n1", "n2"])
names = [m[0] for m in MIX if m[0][1:] not in MANY]
while len(combos) < 70:
    k = rnd.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8])
    c = rnd.sample(names, k)
    if ok(c) and http_unique(c) and c not in combos:
        combos.append(c)
for k in (12, 14, 15, 16, 17, 19, 19):
    big = ["v" + m for m in MANY][:]
    rnd.shuffle(big)
    c = big[:k] + rnd.sample(["vGet", "vPost", "vOptions", "vNA", "pPost", "n1", "vX"], 3)
    while not (ok(c) and http_unique(c)):
        c = big[:k] + rnd.sample(["vGet", "vPost", "vOptions", "vNA", "pPost", "n1", "vX"], 3)
    combos.append(c)
std = ["v" + m for m in ["Get", "Post", "Put", "Delete", "Head", "Patch", "Options", "Connect", "Trace", "Custom", "Lock", "X", "NA"]]
combos.append(std)
for k in (8, 9, 9, 10, 11, 12):
    c = rnd.sample(std, k)
    if rnd.random() < 0.5:
        c += rnd.sample(["n1", "xGe", "xM1", "vCopy", "vMove"], 2)
    combos.append(c)
xs = [m[0] for m in MIX if m[0][0] == "x"]
for i in range(0, len(xs)):
    c = [xs[i]] + rnd.sample(names, rnd.choice([0, 1, 2, 3]))
    while not (ok(c) and http_unique(c)):
        c = [xs[i]] + rnd.sample(names, rnd.choice([0, 1, 2, 3]))
    combos.append(c)
infos = []
for i, c in enumerate(combos):
    t = "impl%02d" % i
    out.append("type %s struct {" % t)
    for n in c:
        out.append("\tmx_%s" % n)
    out.append("\tn int")
    out.append("}")
    out.append("")
    init = lambda amp: "%s%s{%s}" % (amp, t, ", ".join(['mx_%s: mx_%s{id}' % (n, n) for n in c]))
    ptrm = {byname[n][2] for n in c if byname[n][2] and byname[n][4] is None}
    valm = {byname[n][2] for n in c if byname[n][2] and byname[n][4] is None and not byname[n][3]}
    fmtm = lambda s: "[]string{%s}" % ", ".join('"%s"' % m for m in sorted(s))
    infos.append("\t{func(id string) nm.Impl { return %s }, %s}," % (init("&"), fmtm(ptrm)))
    infos.append("\t{func(id string) nm.Impl { return %s }, %s}," % (init(""), fmtm(valm)))
out.append("var implTypes = []implType{")
out += infos
out.append("}")
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "impls_gen.go")
open(p, "w").write("\n".join(out) + "\n")
os.system("gofmt -w " + p)
