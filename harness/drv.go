package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// driver: check.sh builds this binary, and runs `harness run PROP TIER`.

type task struct {
	ck    *check
	seed  uint64
	n     int
	fixed bool
	idx   int
}

type taskOut struct {
	t      *task
	res    workerResult
	hashes []byte
	err    string
}

func mix(parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	x := h.Sum64()
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x &= 1<<62 - 1
	if x == 0 {
		x = 1
	}
	return x
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func driverMain(prop, tier string) int {
	start := time.Now()
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	scale := 1.0
	if s := os.Getenv("VERIF_SCALE"); s != "" { // calibration only
		if v, err := strconv.ParseFloat(s, 64); err == nil {
			scale = v
		}
	}
	var mine []*check
	for _, c := range checks {
		if c.prop == prop && (os.Getenv("VERIF_ONLY") == "" || os.Getenv("VERIF_ONLY") == c.name) {
			mine = append(mine, c)
		}
	}
	if len(mine) == 0 {
		fmt.Fprintln(os.Stderr, "no checks of", prop)
		return 3
	}
	self, _ := os.Executable()
	raceBin := os.Getenv("VERIF_RACE_BIN")

	scratch, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(scratch)

	var tasks []*task
	par := runtime.NumCPU()
	if par > 8 {
		par = 8
	}
	// number of workers does not depend on the machine, so that runs are repeatable
	const shards = 8
	for _, c := range mine {
		n := c.quick
		if tier == "thorough" {
			n = c.thorough
		}
		n = int(float64(n) * scale)
		k := shards
		if c.workers > 0 && c.workers < k {
			k = c.workers
		}
		if tier == "thorough" && c.workers == 0 {
			k = 4 * shards
		}
		if n < k {
			k = n
		}
		for i := 0; i < k; i++ {
			tasks = append(tasks, &task{ck: c, seed: mix(seed, "/", prop, "/", c.name, "/", i), n: (n + k - 1) / k, fixed: i == 0, idx: len(tasks)})
		}
		if k == 0 && c.fixed != nil {
			tasks = append(tasks, &task{ck: c, seed: 1, n: 0, fixed: true, idx: len(tasks)})
		}
	}
	// tasks of different checks are interleaved, long ones start first
	sort.SliceStable(tasks, func(i, j int) bool { return tasks[i].fixed && !tasks[j].fixed })

	runTask := func(t *task, trace bool) taskOut {
		dir := filepath.Join(scratch, fmt.Sprintf("w%d", t.idx))
		os.MkdirAll(dir, 0o755)
		out := filepath.Join(scratch, fmt.Sprintf("o%d.json", t.idx))
		bin := self
		if t.ck.race {
			bin = raceBin
			if bin == "" {
				return taskOut{t: t, err: "no race binary"}
			}
		}
		shrink := "20s"
		if tier == "thorough" {
			shrink = "60s"
		}
		args := []string{"worker", "-prop", t.ck.prop, "-check", t.ck.name, "-seed", fmt.Sprint(t.seed), "-n", fmt.Sprint(t.n),
			"-out", out, "-tmp", dir, "-shrink", shrink}
		if t.fixed {
			args = append(args, "-fixed")
		}
		tf := filepath.Join(scratch, fmt.Sprintf("t%d.json", t.idx))
		if trace || t.ck.race {
			args = append(args, "-trace", tf)
		}
		return runWorker(t, bin, args, out, tf)
	}

	ch := make(chan *task)
	outs := make(chan taskOut)
	stop := make(chan struct{})
	var once sync.Once
	var wg sync.WaitGroup
	for i := 0; i < par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for t := range ch {
				o := runTask(t, false)
				if o.err != "" && strings.HasPrefix(o.err, "crash") && !t.ck.race {
					// crashed: find the case, the run is repeatable
					o = runTask(t, true)
					if strings.HasPrefix(o.err, "crash") && o.res.Case != nil {
						o.res.Violation = o.err
						o.err = ""
					} else if o.err == "" && o.res.Violation == "" {
						o.err = "worker died once, and did not the second time"
					}
				}
				outs <- o
				if o.res.Violation != "" {
					once.Do(func() { close(stop) })
				}
			}
		}()
	}
	go func() {
		for _, t := range tasks {
			select {
			case ch <- t:
			case <-stop:
				goto end
			}
		}
	end:
		close(ch)
		wg.Wait()
		close(outs)
	}()

	ev := newEvidence(prop, tier, seed, mine)
	var violations []taskOut
	var errs []string
	for o := range outs {
		ev.add(o)
		if o.res.Violation != "" {
			violations = append(violations, o)
			killWorkers()
		} else if o.err != "" && len(violations) == 0 {
			errs = append(errs, fmt.Sprintf("%s seed %d: %s", o.t.ck.name, o.t.seed, o.err))
		}
	}

	known := loadKnown(prop)
	code := 0
	reported := 0
	for _, v := range violations {
		if k := known.match(v); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
			continue
		}
		path := saveReplay(prop, v)
		if reported == 0 {
			fmt.Printf("check %s: %s\n", v.t.ck.name, firstLine(v.res.Violation))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		}
		reported++
		code = 1
	}
	if code == 0 && len(errs) > 0 {
		for _, e := range errs {
			fmt.Fprintln(os.Stderr, "ERROR", e)
		}
		code = 3
	}
	ev.write(time.Since(start).Seconds(), reported)
	if code == 0 {
		fmt.Printf("OK property=%s tier=%s seed=%d cases=%d nontrivial=%d wall=%.1fs\n", prop, tier, seed, ev.evals, ev.distinct(), time.Since(start).Seconds())
	}
	return code
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

var procs = struct {
	sync.Mutex
	m      map[*exec.Cmd]bool
	killed bool
}{m: map[*exec.Cmd]bool{}}

// killWorkers ends workers which are still running once a violation is known
func killWorkers() {
	procs.Lock()
	defer procs.Unlock()
	procs.killed = true
	for c := range procs.m {
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
	}
}

func runWorker(t *task, bin string, args []string, out, tf string) taskOut {
	cmd := exec.Command(bin, args...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single", "GOMAXPROCS=2", "TZ=UTC")
	if t.ck.race {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=4")
	}
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	cmd.Stdout = &stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread() // Pdeathsig follows the thread
	defer runtime.UnlockOSThread()

	procs.Lock()
	if procs.killed {
		procs.Unlock()
		return taskOut{t: t, err: "stopped"}
	}
	err := cmd.Start()
	if err == nil {
		procs.m[cmd] = true
	}
	procs.Unlock()
	if err != nil {
		return taskOut{t: t, err: err.Error()}
	}
	err = cmd.Wait()
	procs.Lock()
	delete(procs.m, cmd)
	killed := procs.killed
	procs.Unlock()

	o := taskOut{t: t}
	b, rerr := os.ReadFile(out)
	if rerr == nil && err == nil {
		if jerr := json.Unmarshal(b, &o.res); jerr != nil {
			o.err = jerr.Error()
		}
		o.hashes, _ = os.ReadFile(out + ".hash")
		if o.res.Error != "" {
			o.err = o.res.Error
		}
		return o
	}
	if killed {
		o.err = "stopped"
		return o
	}
	if tb, terr := os.ReadFile(tf); terr == nil {
		o.res.Case = tb
	}
	msg := stderr.String()
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 66 && t.ck.race {
		o.res.Violation = "data race: " + raceSummary(msg)
		return o
	}
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 2 && (strings.Contains(msg, "fatal error:") || strings.Contains(msg, "panic:") || strings.Contains(msg, "goroutine stack exceeds")) {
		o.err = "crash: " + crashSummary(msg)
		if t.ck.race && o.res.Case != nil {
			o.res.Violation, o.err = o.err, ""
		}
		return o
	}
	o.err = fmt.Sprintf("worker ended: %v %s", err, firstLine(msg))
	return o
}

func crashSummary(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.Contains(l, "goroutine stack exceeds") {
			return l
		}
	}
	return firstLine(s)
}

func raceSummary(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "github.com/patrickhuang888/goorc") || strings.HasPrefix(l, "WARNING: DATA RACE") {
			out = append(out, l)
		}
		if len(out) > 6 {
			break
		}
	}
	return strings.Join(out, " | ")
}

func saveReplay(prop string, v taskOut) string {
	dir := filepath.Join(verifDir(), "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	rep := map[string]any{"property": prop, "check": v.t.ck.name, "message": v.res.Violation, "case": v.res.Case}
	b, _ := json.MarshalIndent(rep, "", " ")
	h := fnv.New32a()
	h.Write(v.res.Case)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%08x.json", prop, v.t.ck.name, h.Sum32()))
	os.WriteFile(path, b, 0o644)
	return path
}

// replayMain runs the case of a replay file.
func replayMain(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var rep struct {
		Property, Check string
		Case            json.RawMessage
	}
	if err := json.Unmarshal(b, &rep); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	ck := findCheck(rep.Property, rep.Check)
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no such check")
		return 3
	}
	scratch, _ := os.MkdirTemp("", "verif-replay-")
	defer os.RemoveAll(scratch)
	cf := filepath.Join(scratch, "case.json")
	os.WriteFile(cf, rep.Case, 0o644)
	self, _ := os.Executable()
	if ck.race {
		self = os.Getenv("VERIF_RACE_BIN")
	}
	out := filepath.Join(scratch, "out.json")
	o := runWorker(&task{ck: ck}, self, []string{"worker", "-prop", rep.Property, "-check", rep.Check, "-replay", cf, "-out", out, "-tmp", scratch}, out, cf)
	if strings.HasPrefix(o.err, "crash") {
		o.res.Violation, o.err = o.err, ""
	}
	if o.err != "" {
		fmt.Fprintln(os.Stderr, "ERROR", o.err)
		return 3
	}
	if o.res.Violation != "" {
		fmt.Println(o.res.Violation)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rep.Property, path)
		return 1
	}
	fmt.Println("no violation")
	return 0
}

type evidence struct {
	prop, tier string
	seed       int64
	mine       []*check
	evals      int
	extra      int
	set        map[uint64]struct{}
	perCheck   map[string]map[string]int
	samples    []any
}

func newEvidence(prop, tier string, seed int64, mine []*check) *evidence {
	return &evidence{prop: prop, tier: tier, seed: seed, mine: mine, set: map[uint64]struct{}{}, perCheck: map[string]map[string]int{}}
}

func (e *evidence) add(o taskOut) {
	e.evals += o.res.Evaluations
	e.extra += o.res.Extra
	m := e.perCheck[o.t.ck.name]
	if m == nil {
		m = map[string]int{}
		e.perCheck[o.t.ck.name] = m
	}
	m["cases"] += o.res.Evaluations
	if o.res.Extra > 0 {
		m["inner evaluations"] += o.res.Extra
	}
	for l, n := range o.res.Classes {
		m[l] += n
	}
	for i := 0; i+8 <= len(o.hashes); i += 8 {
		e.set[binary.LittleEndian.Uint64(o.hashes[i:])] = struct{}{}
	}
	k := 0
	for _, s := range e.samples {
		if s.(map[string]any)["check"] == o.t.ck.name {
			k++
		}
	}
	for _, s := range o.res.Samples {
		if k >= 2 {
			break
		}
		e.samples = append(e.samples, map[string]any{"check": o.t.ck.name, "case": s})
		k++
	}
}

func (e *evidence) distinct() int { return len(e.set) }

func (e *evidence) write(wall float64, violations int) {
	var rules []string
	for _, c := range e.mine {
		rules = append(rules, c.name+": "+c.rule)
	}
	if e.samples == nil {
		e.samples = []any{}
	}
	cov := map[string]any{
		"evaluations":         e.evals,
		"distinct_nontrivial": e.distinct(),
		"rule":                strings.Join(rules, "\n"),
		"samples":             e.samples,
		"checks":              e.perCheck,
	}
	level := "exploration"
	if e.prop == "C20" || e.prop == "C21" {
		level = "fault_enumeration"
	}
	ev := map[string]any{"property": e.prop, "tier": e.tier, "seed": e.seed, "level": level, "coverage": cov,
		"wall_s": wall, "violations": violations}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, e.prop+".json"), append(b, '\n'), 0o644)
}

// known findings: lines "finding: property=<id> check=<name> case=<substring of case> <what fails>"
type knownFinding struct{ check, match, what string }
type knownFindings []knownFinding

func loadKnown(prop string) (ks knownFindings) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		f := strings.SplitN(l, " ", 5)
		if len(f) == 5 {
			ks = append(ks, knownFinding{strings.TrimPrefix(f[2], "check="), strings.TrimPrefix(f[3], "message="), f[4]})
		}
	}
	return
}

func (ks knownFindings) match(v taskOut) string {
	for _, k := range ks {
		if k.check == v.t.ck.name && strings.Contains(strings.ReplaceAll(v.res.Violation, " ", "_"), k.match) {
			return k.what
		}
	}
	return ""
}
