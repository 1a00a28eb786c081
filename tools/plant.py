#!/usr/bin/env python3
"""Plants bugs: plant.py DEFS.py [ID ...]

DEFS.py calls B(id, property, edits, demo, needs, breaks) where edits is a list of (file, old, new) and demo is
the body of main() and, after a line '---', further top-level Go declarations. For each bug a scratch copy of
/repo is changed, built and tested against the stable tests; the demo is run on both trees; the property's check
is run against the copy. Kept bugs are written to /verif/seeded/ID."""
import json, os, subprocess, sys, tempfile, textwrap, shutil
V = '/verif'
ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOPROXY='off', GOSUMDB='off',
           GOTOOLCHAIN='local', GOWORK='off', GOFLAGS='-mod=mod')
HEAD = '''package main

import (
	"context"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"

	"github.com/shohruhadham/nanomux"
)

var _ = nanomux.NewRouter
var _ = context.Background

func fail(format string, args ...interface{}) {
	fmt.Printf("FAIL: "+format+"\\n", args...)
	os.Exit(1)
}

func send(h http.Handler, method, url string) *httptest.ResponseRecorder {
	var w = httptest.NewRecorder()
	h.ServeHTTP(w, httptest.NewRequest(method, url, nil))
	return w
}

func expect(h http.Handler, method, url string, code int, body string) {
	var w = send(h, method, url)
	if w.Code != code || (body != "*" && w.Body.String() != body) {
		fail("%s %s: got %d %q, want %d %q", method, url, w.Code, w.Body.String(), code, body)
	}
}

func location(h http.Handler, method, url string, code int, loc string) {
	var w = send(h, method, url)
	if w.Code != code || w.Header().Get("Location") != loc {
		fail("%s %s: got %d to %q, want %d to %q", method, url, w.Code, w.Header().Get("Location"), code, loc)
	}
}

func say(text string) nanomux.Handler {
	return func(w http.ResponseWriter, r *http.Request, args *nanomux.Args) bool {
		fmt.Fprint(w, text)
		return true
	}
}

func panics(f func()) (did bool) {
	defer func() { did = recover() != nil }()
	f()
	return
}

'''
DEMO = '''#!/bin/bash
# Run with cwd /repo: exit 0 if the property holds for the case in demo.go, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
cp "$here/demo.go" "$d/main.go"
printf 'module demo\\n\\ngo 1.18\\n\\nrequire github.com/shohruhadham/nanomux v0.0.0\\n\\nreplace github.com/shohruhadham/nanomux => %s\\n' "$repo" > "$d/go.mod"
cd "$d" && go run .
'''
bugs = []
def B(id, prop, edits, demo, needs, breaks): bugs.append((id, prop, edits, demo, needs, breaks))
def sh(cmd, cwd='/', **k): return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=ENV, capture_output=True, text=True, **k)
def src(demo):
    body, _, decls = demo.partition('\n---\n')
    return HEAD + 'func main() {\n' + textwrap.dedent(body).strip('\n') + '\n}\n\n' + textwrap.dedent(decls)
def rundemo(d, tree): return sh(['bash', d + '/demo.sh'], cwd=tree, timeout=200)
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def tests(tree):
    p = sh('go test -json -vet=off -count=1 -timeout 5m ./...', tree)
    ok = set()
    for l in p.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get('Action') == 'pass' and 'Test' in e: ok.add(e['Package'] + '/' + e['Test'])
    return stable - ok
def one(b):
    id, prop, edits, demo, needs, breaks = b
    t = tempfile.mkdtemp(prefix='plant-'); tree = t + '/repo'
    try:
        shutil.copytree('/repo', tree)
        for f, old, new in edits:
            s = open(f'{tree}/{f}').read()
            if s.count(old) != 1: return f'{id}: EDIT matches {s.count(old)} times in {f}: {old[:60]!r}'
            open(f'{tree}/{f}', 'w').write(s.replace(old, new))
        p = sh('go build ./...', tree)
        if p.returncode or p.stdout.strip(): return f'{id}: BUILD {p.stdout}{p.stderr}'
        m = tests(tree)
        if m: return f'{id}: TESTS FAIL {len(m)} {sorted(m)[:3]}'
        d = t + '/seed'; os.mkdir(d)
        open(d + '/demo.go', 'w').write(src(demo)); open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        p = sh(['goimports', '-w', d + '/demo.go'])
        if p.returncode: return f'{id}: DEMO SYNTAX {p.stderr}'
        p = rundemo(d, '/repo')
        if p.returncode: return f'{id}: DEMO FAILS ON THE UNCHANGED TREE {p.stdout}{p.stderr}'[:1500]
        p = rundemo(d, tree)
        if p.returncode == 0: return f'{id}: DEMO PASSES WITH THE BUG'
        out = (p.stdout + p.stderr).strip().splitlines()[0][:150]
        open(d + '/patch.diff', 'w').write(sh('git diff', tree).stdout)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        dst = f'{V}/seeded/{id}'
        if os.path.isdir(dst): shutil.rmtree(dst)
        shutil.copytree(d, dst)
        p = sh(['bash', V + '/tools/mut.sh', tree, prop])
        return f'{id}: KEPT [{out}] {p.stdout.strip()} {p.stderr.strip()[-300:]}'
    finally: shutil.rmtree(t)
if __name__ == '__main__':
    exec(open(sys.argv[1]).read())
    want = sys.argv[2:]
    for b in bugs:
        if not want or b[0] in want: print(one(b), flush=True)
