package main

// The runner. A check is a master process that shards the generated cases
// over worker processes, merges what they've counted and writes the evidence.
//
//	harness -prop ID -tier quick -seed 1 -verif /verif    runs a check
//	harness -prop ID -replay FILE                         replays a case
//
// A run is a function of the code, the tier and the seed.

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Ctx collects what a check has covered.
type Ctx struct {
	judged  int // oracle comparisons
	classes map[string]int
	nt      bool // the current case is non-trivial
	frozen  bool
	thor    bool
}

func (x *Ctx) nontrivial() { x.nt = true }

func (x *Ctx) class(s string) {
	if !x.frozen {
		x.classes[s]++
	}
}

func (x *Ctx) judge() {
	if !x.frozen {
		x.judged++
	}
}

type property struct {
	id              string
	title           string
	rule            string
	assume          []string
	quick, thorough int // cases
	gen             func(g *G) interface{}
	check           func(c interface{}, x *Ctx) error
	decode          func(b []byte) (interface{}, error)
}

var props = map[string]*property{}

type opts struct {
	quick, thorough int
	rule            string
	assume          []string
}

// register adds a property: gen draws a case, check judges it.
func register[C any](id string, o opts, gen func(g *G) C, check func(c C, x *Ctx) error) {
	props[id] = &property{
		id: id, rule: o.rule, assume: o.assume, quick: o.quick, thorough: o.thorough,
		gen:   func(g *G) interface{} { return gen(g) },
		check: func(c interface{}, x *Ctx) error { return check(c.(C), x) },
		decode: func(b []byte) (interface{}, error) {
			var c C
			var err = json.Unmarshal(b, &c)
			return c, err
		},
	}
}

// thorough says whether generators may draw larger cases.
var thoroughTier bool

// judgeCase runs the check. A panic of the code under test is a failure.
func (p *property) judgeCase(c interface{}, x *Ctx) (err error) {
	defer func() {
		if v := recover(); v != nil {
			err = fmt.Errorf("panic: %v\n%s", v, trimStack(debug.Stack()))
		}
	}()
	return p.check(c, x)
}

func trimStack(b []byte) string {
	var lines = strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "nanomux") || strings.Contains(l, "harness") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// ---------------------------------------------------------------------------
// rapid.TB without the testing package's runner.

type rtb struct{ failed bool }

type tbStop struct{}

func (t *rtb) Helper()                           {}
func (t *rtb) Name() string                      { return "harness" }
func (t *rtb) Logf(string, ...interface{})       {}
func (t *rtb) Log(...interface{})                {}
func (t *rtb) Skipf(string, ...interface{})      { panic(tbStop{}) }
func (t *rtb) Skip(...interface{})               { panic(tbStop{}) }
func (t *rtb) SkipNow()                          { panic(tbStop{}) }
func (t *rtb) Errorf(f string, a ...interface{}) { t.failed = true; lastTB = fmt.Sprintf(f, a...) }
func (t *rtb) Error(a ...interface{})            { t.failed = true; lastTB = fmt.Sprint(a...) }
func (t *rtb) Fatalf(f string, a ...interface{}) { t.Errorf(f, a...); panic(tbStop{}) }
func (t *rtb) Fatal(a ...interface{})            { t.Error(a...); panic(tbStop{}) }
func (t *rtb) FailNow()                          { t.failed = true; panic(tbStop{}) }
func (t *rtb) Fail()                             { t.failed = true }
func (t *rtb) Failed() bool                      { return t.failed }

var lastTB string

// ---------------------------------------------------------------------------
// Worker.

type workerResult struct {
	Evaluations int               `json:"evaluations"`
	Judged      int               `json:"judged"`
	NonTrivial  int               `json:"nontrivial"`
	Skipped     int               `json:"skipped"` // not run because the time was up
	Classes     map[string]int    `json:"classes"`
	Samples     []json.RawMessage `json:"samples"`
	Fail        json.RawMessage   `json:"fail,omitempty"`
	Err         string            `json:"err,omitempty"`
	Harness     string            `json:"harness,omitempty"` // an error of the harness
}

type replayFile struct {
	Property string          `json:"property"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
	Stream   *stream         `json:"stream,omitempty"`
}

type stream struct {
	Seed   uint64 `json:"seed"`
	Checks int    `json:"checks"`
	Tier   string `json:"tier"`
}

var (
	curMu    sync.Mutex
	curCase  []byte
	curStart time.Time
	busy     int32
)

const caseTimeout = 60 * time.Second
const heapLimit = 3 << 30

const (
	exitHung  = 3
	exitHuge  = 4
	exitInfra = 5
)

// watch ends the process when a case takes too long or too much memory.
func watch(out string) {
	var s = []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(250 * time.Millisecond)
		metrics.Read(s)
		curMu.Lock()
		var c, st = curCase, curStart
		curMu.Unlock()
		if atomic.LoadInt32(&busy) == 0 {
			continue
		}
		if time.Since(st) > caseTimeout {
			os.WriteFile(out+".case", c, 0o644)
			os.Exit(exitHung)
		}
		if s[0].Value.Uint64() > heapLimit {
			os.WriteFile(out+".case", c, 0o644)
			os.Exit(exitHuge)
		}
	}
}

func begin(data []byte) {
	curMu.Lock()
	curCase, curStart = data, time.Now()
	curMu.Unlock()
	atomic.StoreInt32(&busy, 1)
}

func end() { atomic.StoreInt32(&busy, 0) }

func runWorker(p *property, seed uint64, checks int, out string, trace bool, budget time.Duration) {
	debug.SetMaxStack(256 << 20)
	go watch(out)
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	flag.Set("rapid.checks", strconv.Itoa(checks))
	flag.Set("rapid.nofailfile", "true")
	var shrink = os.Getenv("VERIF_SHRINK")
	if shrink == "" {
		shrink = "30s"
	}
	flag.Set("rapid.shrinktime", shrink)

	var res workerResult
	var x = &Ctx{classes: map[string]int{}, thor: thoroughTier}
	var seen = map[uint64]bool{}
	var start = time.Now()
	var fail []byte
	var failErr error
	var sampleEvery = checks/3 + 1
	var prop = func(t *rapid.T) {
		if !x.frozen && time.Since(start) > budget {
			res.Skipped++
			return
		}
		var g = &G{t: t}
		var c = p.gen(g)
		var data, err = json.Marshal(c)
		if err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		if trace {
			os.WriteFile(out+".case", data, 0o644)
		}
		x.nt = false
		begin(data)
		err = p.judgeCase(c, x)
		end()
		if !x.frozen {
			res.Evaluations++
			if x.nt {
				var h = fnv.New64a()
				h.Write(data)
				res.NonTrivial++
				seen[h.Sum64()] = true
			}
			if (res.Evaluations%sampleEvery == 1 || len(res.Samples) == 0) && x.nt && len(data) < 6000 {
				res.Samples = append(res.Samples, data)
			}
		}
		if err != nil {
			x.frozen = true
			fail, failErr = data, err
			t.Fatalf("failed")
		}
	}
	func() {
		var tb = &rtb{}
		defer func() {
			if v := recover(); v != nil {
				if _, ok := v.(tbStop); !ok {
					res.Harness = fmt.Sprintf("%v\n%s", v, debug.Stack())
				}
			}
			if tb.failed && fail == nil && res.Harness == "" {
				res.Harness = lastTB
			}
		}()
		rapid.Check(tb, prop)
	}()
	if fail != nil {
		res.Harness = ""
		res.Fail, res.Err = fail, failErr.Error()
	}
	res.Judged = x.judged
	res.Classes = x.classes
	var hb bytes.Buffer
	for h := range seen {
		binary.Write(&hb, binary.LittleEndian, h)
	}
	os.WriteFile(out+".seen", hb.Bytes(), 0o644)
	var b, _ = json.Marshal(&res)
	if err := os.WriteFile(out, b, 0o644); err != nil {
		os.Exit(exitInfra)
	}
}

// runCase runs a case given in a file, alone. Exit codes: 0 - held, 1 - broken.
func runCaseFile(p *property, file string, reps int) {
	debug.SetMaxStack(256 << 20)
	go watch(os.DevNull)
	var b, err = os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exitInfra)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil || len(rf.Case) == 0 {
		fmt.Fprintf(os.Stderr, "not a case: %s: %v\n", file, err)
		os.Exit(exitInfra)
	}
	c, err := p.decode(rf.Case)
	if err != nil {
		fmt.Fprintf(os.Stderr, "not a case of %s: %v\n", p.id, err)
		os.Exit(exitInfra)
	}
	for i := 0; i < reps; i++ {
		begin(rf.Case)
		err = p.judgeCase(c, &Ctx{classes: map[string]int{}, frozen: true, thor: thoroughTier})
		end()
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
	}
	os.Exit(0)
}

// ---------------------------------------------------------------------------
// Master.

type master struct {
	p       *property
	tier    string
	seed    int64
	verif   string
	tmp     string
	workers int
	start   time.Time
}

func (m *master) child(args ...string) *exec.Cmd {
	var exe, _ = os.Executable()
	var c = exec.Command(exe, append([]string{"-prop", m.p.id, "-tier", m.tier}, args...)...)
	c.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOTRACEBACK=single")
	return c
}

func exitCode(err error) int {
	if err == nil {
		return 0
	}
	if ee, ok := err.(*exec.ExitError); ok {
		return ee.ExitCode()
	}
	return -2
}

func hash64(parts ...string) uint64 {
	var h = fnv.New64a()
	for _, s := range parts {
		io.WriteString(h, s)
		h.Write([]byte{0})
	}
	return h.Sum64()
}

func (m *master) workerSeed(i int) uint64 {
	var s = hash64(m.p.id, strconv.FormatInt(m.seed, 10), strconv.Itoa(i))
	// Room for rapid's increments, and never 0.
	return s>>1 | 1<<40
}

func tail(b []byte, n int) string {
	if len(b) > n {
		b = append([]byte("…"), b[len(b)-n:]...)
	}
	return string(b)
}

func headOf(b []byte, n int) string {
	if len(b) > n {
		b = b[:n]
	}
	return string(b)
}

type failure struct {
	c   json.RawMessage
	err string
	st  *stream
}

func (m *master) violation(f failure) string {
	var dir = filepath.Join(m.verif, "replays")
	os.MkdirAll(dir, 0o755)
	var rf = replayFile{Property: m.p.id, Error: f.err, Case: f.c, Stream: f.st}
	var b, _ = json.MarshalIndent(&rf, "", " ")
	var path = filepath.Join(dir, fmt.Sprintf("%s-%016x.json", m.p.id, hash64(string(f.c))))
	os.WriteFile(path, b, 0o644)
	return path
}

// confirm runs the case alone in a process of its own.
func (m *master) confirm(c json.RawMessage) (bool, string) {
	var f = filepath.Join(m.tmp, fmt.Sprintf("confirm-%016x.json", hash64(string(c))))
	var b, _ = json.Marshal(&replayFile{Property: m.p.id, Case: c})
	os.WriteFile(f, b, 0o644)
	var cmd = m.child("-case", f, "-reps", "3")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	var code = exitCode(cmd.Run())
	switch code {
	case 0, exitInfra:
		return false, out.String()
	case exitHung:
		return true, "the case doesn't end"
	case exitHuge:
		return true, "the case takes too much memory"
	}
	return true, headOf(out.Bytes(), 3000)
}

func (m *master) run() int {
	m.start = time.Now()
	var err error
	m.tmp, err = os.MkdirTemp("", "nanomux-verif-")
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	defer os.RemoveAll(m.tmp)

	var checks = m.p.quick
	var budget = 150 * time.Second
	if m.tier == "thorough" {
		checks = m.p.thorough
		budget = 600 * time.Second
	}
	if s := os.Getenv("VERIF_CHECKS"); s != "" {
		checks, _ = strconv.Atoi(s)
	}
	var per = (checks + m.workers - 1) / m.workers

	var failures []failure
	var broken []string
	var total workerResult
	total.Classes = map[string]int{}
	var seen = map[uint64]bool{}

	// The saved cases first.
	var saved, _ = filepath.Glob(filepath.Join(m.verif, "regress", m.p.id, "*.json"))
	sort.Strings(saved)
	var mu sync.Mutex
	var wg sync.WaitGroup
	var sem = make(chan struct{}, m.workers)
	for _, f := range saved {
		f := f
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			var cmd = m.child("-case", f, "-reps", "2")
			var out bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &out
			var code = exitCode(cmd.Run())
			mu.Lock()
			defer mu.Unlock()
			switch code {
			case 0:
			case exitInfra:
				broken = append(broken, out.String())
			default:
				var b, _ = os.ReadFile(f)
				var rf replayFile
				json.Unmarshal(b, &rf)
				failures = append(failures, failure{c: rf.Case, err: fmt.Sprintf("saved case %s: %s", filepath.Base(f), headOf(out.Bytes(), 3000))})
			}
		}()
	}
	wg.Wait()

	for i := 0; i < m.workers; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			var out = filepath.Join(m.tmp, fmt.Sprintf("w%d", i))
			var seed = m.workerSeed(i)
			var args = []string{
				"-worker", out, "-wseed", strconv.FormatUint(seed, 10), "-n", strconv.Itoa(per), "-budget", budget.String(),
			}
			var st = &stream{Seed: seed, Checks: per, Tier: m.tier}
			var run = func(extra ...string) (int, string) {
				var cmd = m.child(append(args, extra...)...)
				var buf bytes.Buffer
				cmd.Stdout, cmd.Stderr = &buf, &buf
				var code = exitCode(cmd.Run())
				return code, headOf(buf.Bytes(), 4000)
			}
			var code, text = run()
			if code != 0 && code != exitHung && code != exitHuge && code != exitInfra {
				// A crash that can't be recovered from: look for the case.
				var code2, text2 = run("-trace")
				if code2 != 0 {
					code, text = code2, text2
				} else {
					os.Remove(out + ".case")
				}
			}
			mu.Lock()
			defer mu.Unlock()
			if code != 0 {
				var c, rerr = os.ReadFile(out + ".case")
				if rerr != nil || len(c) == 0 {
					broken = append(broken, fmt.Sprintf("worker %d ended with %d: %s", i, code, text))
					return
				}
				if code == exitHung && len(failures) > 0 {
					// One is enough, they take long.
					return
				}
				var ok, why = m.confirm(c)
				switch {
				case ok:
					failures = append(failures, failure{c: c, err: why, st: st})
				case code == 66:
					// The race detector has seen a race in this process.
					failures = append(failures, failure{c: c, err: text, st: st})
				default:
					broken = append(broken, fmt.Sprintf("worker %d ended with %d, the case alone doesn't fail: %s", i, code, text))
				}
				return
			}
			var b, _ = os.ReadFile(out)
			var r workerResult
			if err := json.Unmarshal(b, &r); err != nil {
				broken = append(broken, fmt.Sprintf("worker %d: %v", i, err))
				return
			}
			if r.Harness != "" {
				broken = append(broken, fmt.Sprintf("worker %d: %s", i, r.Harness))
			}
			total.Evaluations += r.Evaluations
			total.Judged += r.Judged
			total.NonTrivial += r.NonTrivial
			total.Skipped += r.Skipped
			for k, v := range r.Classes {
				total.Classes[k] += v
			}
			if i < 2 {
				total.Samples = append(total.Samples, r.Samples...)
			}
			var hb, _ = os.ReadFile(out + ".seen")
			for ; len(hb) >= 8; hb = hb[8:] {
				seen[binary.LittleEndian.Uint64(hb)] = true
			}
			if r.Fail != nil {
				failures = append(failures, failure{c: r.Fail, err: r.Err, st: st})
			}
		}()
	}
	wg.Wait()

	var samples = total.Samples
	if len(samples) > 4 {
		samples = samples[:4]
	}
	if samples == nil {
		samples = []json.RawMessage{}
	}
	var ev = map[string]interface{}{
		"property": m.p.id,
		"tier":     m.tier,
		"seed":     m.seed,
		"level":    "exploration",
		"coverage": map[string]interface{}{
			"evaluations":         total.Evaluations,
			"distinct_nontrivial": len(seen),
			"oracle_comparisons":  total.Judged,
			"rule":                m.p.rule,
			"samples":             samples,
			"classes":             total.Classes,
			"saved_cases":         len(saved),
			"not_run_time_up":     total.Skipped,
		},
		"assumptions": append([]string{"the reference semantics in /verif/harness/model.go and spec.go (inputs for which the documentation leaves the outcome open are generated but not judged)", "Go's net/http request parsing"}, m.p.assume...),
		"wall_s":      time.Since(m.start).Seconds(),
		"violations":  len(failures),
	}
	var b, _ = json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(m.verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(m.verif, "evidence", m.p.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	if os.Getenv("VERIF_CLASSES") != "" {
		var ks []string
		for k := range total.Classes {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("  %-40s %d\n", k, total.Classes[k])
		}
	}
	fmt.Printf("%s: %d cases, %d distinct non-trivial, %d comparisons, %d saved cases, %.1f s\n",
		m.p.id, total.Evaluations, len(seen), total.Judged, len(saved), time.Since(m.start).Seconds())
	if len(failures) > 0 {
		sort.Slice(failures, func(i, j int) bool { return len(failures[i].c) < len(failures[j].c) })
		fmt.Println(failures[0].err)
		fmt.Printf("VIOLATION property=%s replay=%s\n", m.p.id, m.violation(failures[0]))
		return 1
	}
	if len(broken) > 0 {
		for _, s := range broken {
			fmt.Println("ERROR:", s)
		}
		return 2
	}
	if total.Evaluations == 0 || len(seen) == 0 {
		fmt.Println("ERROR: nothing has been checked")
		return 2
	}
	return 0
}

// replay runs a replay file: the case alone, and when it holds, the stream of
// cases it's been found in.
func replay(p *property, file string) int {
	var b, err = os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	var exe, _ = os.Executable()
	var run = func(args ...string) int {
		var c = exec.Command(exe, append([]string{"-prop", p.id}, args...)...)
		c.Stdout, c.Stderr = os.Stdout, os.Stderr
		c.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
		return exitCode(c.Run())
	}
	var code = run("-case", file, "-reps", "20")
	if code == 0 && rf.Stream != nil {
		fmt.Println("the case alone holds; running the cases before it too")
		var tmp, _ = os.MkdirTemp("", "nanomux-verif-")
		defer os.RemoveAll(tmp)
		var out = filepath.Join(tmp, "w")
		code = run("-tier", rf.Stream.Tier, "-worker", out, "-wseed", strconv.FormatUint(rf.Stream.Seed, 10),
			"-n", strconv.Itoa(rf.Stream.Checks), "-budget", "600s")
		var r workerResult
		var b, _ = os.ReadFile(out)
		json.Unmarshal(b, &r)
		if r.Fail != nil {
			fmt.Println(r.Err)
			code = 1
		}
	}
	if code == exitInfra {
		return 2
	}
	if code != 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, file)
		return 1
	}
	fmt.Println("holds")
	return 0
}

func main() {
	testing.Init()
	var (
		prop    = flag.String("prop", "", "")
		tier    = flag.String("tier", "quick", "")
		seed    = flag.Int64("seed", 1, "")
		verif   = flag.String("verif", "/verif", "")
		worker  = flag.String("worker", "", "")
		wseed   = flag.Uint64("wseed", 1, "")
		n       = flag.Int("n", 100, "")
		budget  = flag.Duration("budget", 10*time.Minute, "")
		trace   = flag.Bool("trace", false, "")
		caseF   = flag.String("case", "", "")
		reps    = flag.Int("reps", 1, "")
		rep     = flag.String("replay", "", "")
		workers = flag.Int("workers", 8, "")
		list    = flag.Bool("list", false, "")
	)
	flag.Parse()
	log.SetOutput(io.Discard)
	if *list {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	var p = props[*prop]
	if p == nil {
		fmt.Println("ERROR: unknown property", *prop)
		os.Exit(2)
	}
	thoroughTier = *tier == "thorough"
	switch {
	case *worker != "":
		runtime.GOMAXPROCS(2)
		runWorker(p, *wseed, *n, *worker, *trace, *budget)
	case *caseF != "":
		runCaseFile(p, *caseF, *reps)
	case *rep != "":
		os.Exit(replay(p, *rep))
	default:
		var m = &master{p: p, tier: *tier, seed: *seed, verif: *verif, workers: *workers}
		os.Exit(m.run())
	}
}
