package main

// Framework: a property is decided by one or more checks. A check is a
// generator of cases (rapid) and a deterministic function which runs a case
// against the code in /repo and compares it with an oracle. Cases are plain
// data (JSON), so a failing case is its own replay file.

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Ctx collects what a case did.
type Ctx struct {
	nontrivial bool
	classes    map[string]bool
	evals      int
	tmp        string
	fileNo     int
}

// Nontrivial marks the case by the rule of its check.
func (c *Ctx) Nontrivial() { c.nontrivial = true }

// Class counts a label once for the case.
func (c *Ctx) Class(l string) { c.classes[l] = true }

// ClassIf counts a label if b.
func (c *Ctx) ClassIf(b bool, l string) {
	if b {
		c.classes[l] = true
	}
}

// Eval counts additional evaluations within a case (seeks, prefixes, mutants).
func (c *Ctx) Eval(n int) { c.evals += n }

// Path returns a fresh path in the scratch directory of the worker.
func (c *Ctx) Path() string {
	c.fileNo++
	return filepath.Join(c.tmp, fmt.Sprintf("f%d.orc", c.fileNo))
}

// Violation is what a check returns when the code breaks the property.
type Violation struct{ msg string }

func (v *Violation) Error() string { return v.msg }

func violf(format string, args ...any) error {
	return &Violation{fmt.Sprintf(format, args...)}
}

type check struct {
	prop, name      string
	rule            string
	quick, thorough int // number of cases over all workers
	workers         int // at most, 0 all
	race            bool
	bigStack        bool
	gen             func(t *rapid.T) any
	run             func(ctx *Ctx, c any) error
	decode          func(b []byte) (any, error)
	fixed           func() []any // cases always run
	cpuLimit        time.Duration
	heapLimit       uint64
}

var checks []*check

type opt func(*check)

func raceBuild(c *check)      { c.race = true }
func maxWorkers(n int) opt    { return func(c *check) { c.workers = n } }
func cpu(d time.Duration) opt { return func(c *check) { c.cpuLimit = d } }
func heap(n uint64) opt       { return func(c *check) { c.heapLimit = n } }
func fixed[C any](f func() []C) opt {
	return func(c *check) {
		c.fixed = func() (out []any) {
			for _, x := range f() {
				out = append(out, x)
			}
			return
		}
	}
}

func register[C any](prop, name, rule string, quick, thorough int, gen func(t *rapid.T) C, run func(ctx *Ctx, c C) error, opts ...opt) {
	ck := &check{prop: prop, name: name, rule: rule, quick: quick, thorough: thorough,
		gen: func(t *rapid.T) any { return gen(t) },
		run: func(ctx *Ctx, c any) error { return run(ctx, c.(C)) },
		decode: func(b []byte) (any, error) {
			var c C
			err := json.Unmarshal(b, &c)
			return c, err
		},
		cpuLimit:  60 * time.Second,
		heapLimit: 3 << 30,
	}
	for _, o := range opts {
		o(ck)
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_CPU")); err == nil { // to look for cases which take long
		ck.cpuLimit = time.Duration(s) * time.Second
	}
	checks = append(checks, ck)
}

func findCheck(prop, name string) *check {
	for _, c := range checks {
		if c.prop == prop && c.name == name {
			return c
		}
	}
	return nil
}

// workerResult is what a worker process reports to the driver.
type workerResult struct {
	Evaluations int               `json:"evaluations"`
	Extra       int               `json:"extra"`
	Nontrivial  int               `json:"nontrivial"`
	Classes     map[string]int    `json:"classes"`
	Samples     []json.RawMessage `json:"samples"`
	Violation   string            `json:"violation,omitempty"`
	Case        json.RawMessage   `json:"case,omitempty"`
	Error       string            `json:"error,omitempty"`
	Wall        float64           `json:"wall"`
}

type worker struct {
	ck      *check
	res     workerResult
	hashes  map[uint64]struct{}
	tmp     string
	trace   string
	failed  bool
	lastBad any
	lastMsg string
	first   any
	firstM  string

	caseStart atomic.Int64 // cpu time at start of the case, 0 if none runs
	current   atomic.Pointer[any]
	out       string
}

func cpuNow() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

// setLocal sets the local time zone to one that depends on the case alone, half of the time UTC.
func setLocal(c any) func() {
	if raceEnabled {
		return func() {}
	}
	b, _ := json.Marshal(c)
	h := fnv.New32a()
	h.Write(b)
	n := h.Sum32() >> 8
	if n&1 == 0 {
		return func() {}
	}
	old := time.Local
	time.Local = zoneOf(zones[int(n>>1)%len(zones)])
	return func() { time.Local = old }
}

var loaded = map[string]*time.Location{}

func zoneOf(name string) *time.Location {
	l := loaded[name]
	if l == nil {
		var err error
		if l, err = time.LoadLocation(name); err != nil {
			panic(err)
		}
		loaded[name] = l
	}
	return l
}

// runCase runs a case, a panic is a violation.
func (w *worker) runCase(c any) (err error) {
	ctx := &Ctx{classes: map[string]bool{}, tmp: w.tmp}
	if w.trace != "" {
		b, _ := json.Marshal(c)
		os.WriteFile(w.trace, b, 0o644)
	}
	defer setLocal(c)()
	w.current.Store(&c)
	w.caseStart.Store(cpuNow())
	defer func() {
		w.caseStart.Store(0)
		for i := 1; i <= ctx.fileNo; i++ {
			os.Remove(filepath.Join(w.tmp, fmt.Sprintf("f%d.orc", i)))
		}
	}()
	func() {
		defer func() {
			if p := recover(); p != nil {
				err = violf("panic: %v%s", p, panicSite())
			}
		}()
		err = w.ck.run(ctx, c)
	}()
	if err != nil && strings.Contains(err.Error(), "too many open files") {
		// a limit of the system, leaks are looked for by C24
		ctx.Class("not enough descriptors")
		err = nil
	}
	if w.failed {
		return err
	}
	w.res.Evaluations++
	w.res.Extra += ctx.evals
	for l := range ctx.classes {
		w.res.Classes[l]++
	}
	if ctx.nontrivial {
		w.res.Classes["nontrivial"]++
		b, _ := json.Marshal(c)
		h := fnv.New64a()
		h.Write([]byte(w.ck.name))
		h.Write(b)
		s := h.Sum64()
		if _, ok := w.hashes[s]; !ok {
			w.hashes[s] = struct{}{}
			if n := len(w.hashes); len(w.res.Samples) < 3 && (n == 2 || n == 17 || n == 101) && len(b) < 6000 {
				w.res.Samples = append(w.res.Samples, b)
			}
		}
	}
	return err
}

// panicSite names the innermost frames of the panic outside of runtime.
func panicSite() string {
	pcs := make([]uintptr, 64)
	n := runtime.Callers(4, pcs)
	frames := runtime.CallersFrames(pcs[:n])
	var out []string
	for {
		f, more := frames.Next()
		if !strings.HasPrefix(f.Function, "runtime.") && f.Function != "" {
			out = append(out, fmt.Sprintf("%s (%s:%d)", f.Function, filepath.Base(f.File), f.Line))
		}
		if !more || len(out) >= 4 {
			break
		}
	}
	return " at " + strings.Join(out, " < ")
}

// quietTB lets rapid run outside of go test.
type quietTB struct {
	name   string
	failed bool
	log    []string
}

func (t *quietTB) Helper()      {}
func (t *quietTB) Name() string { return t.name }
func (t *quietTB) Logf(f string, a ...any) {
	if len(t.log) < 100 {
		t.log = append(t.log, fmt.Sprintf(f, a...))
	}
}
func (t *quietTB) Log(a ...any)              { t.Logf("%s", fmt.Sprint(a...)) }
func (t *quietTB) Skipf(f string, a ...any)  { runtime.Goexit() }
func (t *quietTB) Skip(a ...any)             { runtime.Goexit() }
func (t *quietTB) SkipNow()                  { runtime.Goexit() }
func (t *quietTB) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *quietTB) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *quietTB) Fatalf(f string, a ...any) { t.Logf(f, a...); t.FailNow() }
func (t *quietTB) Fatal(a ...any)            { t.Log(a...); t.FailNow() }
func (t *quietTB) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *quietTB) Fail()                     { t.failed = true }
func (t *quietTB) Failed() bool              { return t.failed }

// watch ends the process when a case uses too much processor time or memory.
func (w *worker) watch() {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	var idleCase, idleCPU int64
	idle := 0
	for {
		time.Sleep(50 * time.Millisecond)
		start := w.caseStart.Load()
		if start == 0 {
			continue
		}
		var why string
		// a case which waits forever uses no time
		if idle++; start != idleCase || cpuNow()-idleCPU > int64(500*time.Millisecond) {
			idleCase, idleCPU, idle = start, cpuNow(), 0
		} else if idle > 1800 {
			why = "no end, and nothing happens for 90 seconds"
		}
		if used := time.Duration(cpuNow() - start); used > w.ck.cpuLimit {
			why = fmt.Sprintf("no end after %s of processor time", w.ck.cpuLimit)
		}
		metrics.Read(sample)
		if sample[0].Value.Uint64() > w.ck.heapLimit { // of which a part may be garbage
			runtime.GC()
			metrics.Read(sample)
		}
		if n := sample[0].Value.Uint64(); n > w.ck.heapLimit {
			why = fmt.Sprintf("more than %d MB of memory used", w.ck.heapLimit>>20)
		}
		if why == "" || w.caseStart.Load() != start {
			continue
		}
		c := *w.current.Load()
		b, _ := json.Marshal(c)
		w.writeResult(workerResult{Violation: why, Case: b, Evaluations: w.res.Evaluations, Classes: map[string]int{}})
		os.Exit(0)
	}
}

func (w *worker) writeResult(r workerResult) {
	b, err := json.Marshal(r)
	if err != nil {
		b = []byte(`{"error":"result not marshalled"}`)
	}
	os.WriteFile(w.out+".tmp", b, 0o644)
	os.Rename(w.out+".tmp", w.out)
}

func workerMain(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	name := fs.String("check", "", "")
	seed := fs.Uint64("seed", 1, "")
	n := fs.Int("n", 100, "")
	out := fs.String("out", "", "")
	tmp := fs.String("tmp", "", "")
	trace := fs.String("trace", "", "")
	runFixed := fs.Bool("fixed", false, "")
	replay := fs.String("replay", "", "")
	shrink := fs.Duration("shrink", 20*time.Second, "")
	fs.Parse(args)

	ck := findCheck(*prop, *name)
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no check", *prop, *name)
		os.Exit(3)
	}
	silence()
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(int64(ck.heapLimit / 2))
	w := &worker{ck: ck, hashes: map[uint64]struct{}{}, tmp: *tmp, trace: *trace, out: *out}
	w.res.Classes = map[string]int{}
	start := time.Now()
	go w.watch()

	finish := func(msg string, c any) {
		w.res.Nontrivial = len(w.hashes)
		w.res.Wall = time.Since(start).Seconds()
		if msg != "" {
			b, err := json.Marshal(c)
			if err != nil {
				w.res.Error = err.Error()
			}
			w.res.Violation, w.res.Case = msg, b
		}
		hb := make([]byte, 0, 8*len(w.hashes))
		hs := make([]uint64, 0, len(w.hashes))
		for h := range w.hashes {
			hs = append(hs, h)
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
		for _, h := range hs {
			hb = binary.LittleEndian.AppendUint64(hb, h)
		}
		os.WriteFile(w.out+".hash", hb, 0o644)
		w.writeResult(w.res)
		os.Exit(0)
	}

	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			w.res.Error = err.Error()
			finish("", nil)
		}
		c, err := ck.decode(b)
		if err != nil {
			w.res.Error = err.Error()
			finish("", nil)
		}
		if err := w.runCase(c); err != nil {
			finish(err.Error(), c)
		}
		finish("", nil)
	}

	if *runFixed && ck.fixed != nil {
		for _, c := range ck.fixed() {
			if err := w.runCase(c); err != nil {
				finish(err.Error(), c)
			}
			w.res.Classes["fixed case"]++
		}
	}

	if *n > 0 {
		flag.Set("rapid.seed", fmt.Sprint(*seed))
		flag.Set("rapid.checks", fmt.Sprint(*n))
		flag.Set("rapid.nofailfile", "true")
		flag.Set("rapid.shrinktime", shrink.String())
		tb := &quietTB{name: fmt.Sprintf("%s-%s-%d", *prop, *name, *seed)}
		done := make(chan struct{})
		go func() {
			defer close(done)
			rapid.Check(tb, func(t *rapid.T) {
				c := ck.gen(t)
				if err := w.runCase(c); err != nil {
					if !w.failed {
						w.first, w.firstM = c, err.Error()
					}
					w.failed = true
					w.lastBad, w.lastMsg = c, err.Error()
					t.Fatalf("violation")
				}
			})
		}()
		<-done
		if w.failed {
			// the last failing case is the smallest, make sure it is one
			c, msg := w.lastBad, w.lastMsg
			if err := w.runCase(c); err != nil {
				msg = err.Error()
			} else if err := w.runCase(w.first); err != nil {
				c, msg = w.first, err.Error()
			} else {
				c, msg = w.first, w.firstM+" (seen once)"
			}
			finish(msg, c)
		}
		if tb.failed {
			w.res.Error = "rapid: " + strings.Join(tb.log, "; ")
		}
	}
	finish("", nil)
}

func init() {
	testing.Init()
}
