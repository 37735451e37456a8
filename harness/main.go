package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type sample struct {
	Case  int      `json:"case"`
	Trace []string `json:"trace"`
}

type workerResult struct {
	Evaluations int            `json:"evaluations"`
	Abandoned   map[string]int `json:"abandoned"`
	Known       map[string]int `json:"known"`
	Events      map[string]int `json:"events"`
	Keys        []uint64       `json:"keys"`
	Samples     []sample       `json:"samples"`
	Violated    bool           `json:"violated"`
	Case        int            `json:"case"`
	Msg         string         `json:"msg"`
	Stack       string         `json:"stack"`
	Trace       []string       `json:"trace"`
	Inconcl     string         `json:"inconclusive"`
	Done        bool           `json:"done"`
}

type knownEntry struct{ Property, Sig, What string }

var knownLine = regexp.MustCompile(`^known: property=(\S+) sig=(\S+) (.*)$`)

// loadKnown reads the "known:" lines of the known-findings file ("fixed:" lines suppress nothing).
func loadKnown(path string) []knownEntry {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownEntry
	for _, line := range strings.Split(string(b), "\n") {
		if m := knownLine.FindStringSubmatch(strings.TrimSpace(line)); m != nil {
			out = append(out, knownEntry{m[1], m[2], m[3]})
		}
	}
	return out
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: harness run|worker|replay|probe ...")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "run":
		driver(os.Args[2:])
	case "worker":
		worker(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	case "probe":
		probe()
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	case "races":
		if p, ok := props[os.Args[2]]; ok && p.Race {
			fmt.Println("yes")
		}
	default:
		os.Exit(3)
	}
}

func newCtx(p *Prop, tier string, seed int64, idx int, known []knownEntry) *Ctx {
	c := &Ctx{R: rand.New(rand.NewSource(mix(seed, p.ID, idx))), Prop: p, Tier: tier, Seed: seed, Idx: idx,
		events: map[string]int{}, Scratch: scratchRoot(), Directed: idx < len(p.Directed), knownSet: map[string]bool{}}
	for _, e := range known {
		if e.Property == p.ID {
			c.knownSet[e.Sig] = true
		}
	}
	return c
}

func caseFunc(p *Prop, idx int) func(*Ctx) {
	if idx < len(p.Directed) {
		return p.Directed[idx]
	}
	return p.Random
}

const (
	cpuBudget  = 100.0 // CPU seconds one case may burn; cases need well under one
	wallBudget = 600 * time.Second
)

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

var gHeader = regexp.MustCompile(`(?m)^goroutine (\d+)[^\[]*\[([^\]]*)\]:`)

// blockedDump returns the states of all goroutines but the caller's, and whether
// all of them wait for one another (channel or lock), i.e. nothing can ever wake them.
func blockedDump() (sig string, allBlocked bool, full string) {
	buf := make([]byte, 1<<22)
	n := runtime.Stack(buf, true)
	full = string(buf[:n])
	parts := strings.Split(full, "\n\n")
	allBlocked = len(parts) > 1
	var states []string
	for i, part := range parts {
		if i == 0 { // the caller
			continue
		}
		m := gHeader.FindStringSubmatch(part)
		if m == nil {
			continue
		}
		st := strings.SplitN(m[2], ",", 2)[0]
		states = append(states, m[1]+":"+st)
		ok := strings.HasPrefix(st, "chan receive") || strings.HasPrefix(st, "chan send") ||
			strings.HasPrefix(st, "sync.") || strings.HasPrefix(st, "semacquire") || st == "select (no cases)"
		if !ok {
			allBlocked = false
		}
	}
	sort.Strings(states)
	return strings.Join(states, " "), allBlocked, full
}

// supervise runs a case under the hang monitor.
func supervise(c *Ctx, f func(*Ctx)) (out caseOutcome, inconclusive string) {
	ch := make(chan caseOutcome, 1)
	cpu0 := cpuSeconds()
	t0 := time.Now()
	go func() { ch <- runCase(c, f) }()
	prev, same := "", 0
	wait := 1500 * time.Millisecond
	for {
		select {
		case out = <-ch:
			return out, ""
		case <-time.After(wait):
		}
		wait = 500 * time.Millisecond
		sig, blocked, full := blockedDump()
		if blocked && sig == prev {
			same++
		} else {
			same = 0
		}
		prev = sig
		if blocked && same >= 2 {
			return caseOutcome{violated: true, msg: "deadlock: the operation never returns (every goroutine is blocked on a channel or lock)",
				stack: trimStack(full)}, ""
		}
		if d := cpuSeconds() - cpu0; d > cpuBudget {
			return caseOutcome{violated: true, msg: fmt.Sprintf("runaway: the case burnt %.0f CPU seconds without returning", d), stack: trimStack(full)}, ""
		}
		if time.Since(t0) > wallBudget {
			return out, fmt.Sprintf("case %d did not finish within the wall-clock watchdog", c.Idx)
		}
	}
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	id := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	start := fs.Int("start", 0, "")
	stride := fs.Int("stride", 1, "")
	count := fs.Int("count", 0, "")
	outPath := fs.String("out", "", "")
	progress := fs.String("progress", "", "")
	knownPath := fs.String("known", "", "")
	fs.Parse(args)
	p := props[*id]
	log.SetOutput(io.Discard)
	if !p.Race {
		// a runaway allocation becomes a Go "out of memory" crash of this worker
		lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	known := loadKnown(*knownPath)
	pf, err := os.Create(*progress)
	if err != nil {
		os.Exit(3)
	}
	res := workerResult{Events: map[string]int{}, Abandoned: map[string]int{}, Known: map[string]int{}}
	keys := map[uint64]bool{}
	// on a slow machine explore less rather than not answering
	enough := time.Now().Add(400 * time.Second)
	if *tier == "thorough" {
		enough = time.Now().Add(3 * time.Hour)
	}
	for idx := *start; idx < *count; idx += *stride {
		if time.Now().After(enough) {
			res.Events["workers-stopped-early"]++
			break
		}
		pf.WriteAt([]byte(fmt.Sprintf("%-12d", idx)), 0)
		c := newCtx(p, *tier, *seed, idx, known)
		rand.Seed(mix(*seed, p.ID+"/global", idx))
		out, inconcl := supervise(c, caseFunc(p, idx))
		if inconcl != "" {
			res.Inconcl = inconcl
			break
		}
		res.Evaluations++
		for k, v := range c.events {
			res.Events[k] += v
		}
		if out.abandoned != "" {
			res.Abandoned[out.abandoned]++
		}
		if out.known != "" {
			res.Known[out.known]++
		}
		if c.nontrivial && out.abandoned == "" {
			k := c.tracekey()
			if !keys[k] {
				keys[k] = true
				if len(res.Samples) < 2 && !out.violated {
					tr := c.trace
					if len(tr) > 40 {
						tr = tr[:40]
					}
					res.Samples = append(res.Samples, sample{idx, tr})
				}
			}
		}
		if out.violated {
			res.Violated, res.Case, res.Msg, res.Stack, res.Trace = true, idx, out.msg, out.stack, c.trace
			break
		}
	}
	stopProbe()
	for k := range keys {
		res.Keys = append(res.Keys, k)
	}
	res.Done = true
	b, _ := json.Marshal(res)
	if err := os.WriteFile(*outPath, b, 0o644); err != nil {
		os.Exit(3)
	}
	os.Exit(0)
}

func replay(args []string) {
	var r struct {
		Property string
		Seed     int64
		Tier     string
		Case     int
	}
	b, err := os.ReadFile(args[0])
	if err == nil {
		err = json.Unmarshal(b, &r)
	}
	if err != nil || props[r.Property] == nil {
		fmt.Println("cannot read replay file:", err)
		os.Exit(3)
	}
	log.SetOutput(io.Discard)
	p := props[r.Property]
	c := newCtx(p, r.Tier, r.Seed, r.Case, nil)
	rand.Seed(mix(r.Seed, p.ID+"/global", r.Case))
	out, inconcl := supervise(c, caseFunc(p, r.Case))
	for _, s := range c.trace {
		fmt.Println("  ", s)
	}
	switch {
	case inconcl != "":
		fmt.Println("inconclusive:", inconcl)
		os.Exit(3)
	case out.violated:
		fmt.Println("violated:", out.msg)
		fmt.Println(out.stack)
		os.Exit(1)
	}
	fmt.Println("held", out.abandoned)
	os.Exit(0)
}

func driver(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	id := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	evidence := fs.String("evidence", "", "")
	replayDir := fs.String("replays", "", "")
	knownPath := fs.String("known", "", "")
	only := fs.Int("case", -1, "run one case only")
	maxCases := fs.Int("maxcases", 0, "run at most so many cases (mutation runs)")
	maxWorkers := fs.Int("workers", 8, "worker processes")
	fs.Parse(args)
	p := props[*id]
	if p == nil {
		fmt.Println("unknown property", *id)
		os.Exit(3)
	}
	t0 := time.Now()
	n := p.cases(*tier)
	nw := runtime.NumCPU()
	if *maxCases > 0 && n > *maxCases {
		n = *maxCases
	}
	if nw > *maxWorkers {
		nw = *maxWorkers
	}
	if p.Serial && nw > 4 {
		nw = 4
	}
	if nw > n {
		nw = n
	}
	first, stride := 0, nw
	if *only >= 0 {
		first, stride, nw, n = *only, 1, 1, *only+1
	}
	work, err := os.MkdirTemp(scratchRoot(), "verif-"+p.ID+"-")
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	defer os.RemoveAll(work)
	type shard struct {
		res    workerResult
		ok     bool
		exit   string
		code   int
		signal bool
		stderr string
		last   int
	}
	shards := make([]shard, nw)
	var wg sync.WaitGroup
	deadline := 840 * time.Second
	if *tier == "thorough" {
		deadline = 6 * time.Hour
	}
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			out := filepath.Join(work, fmt.Sprintf("out%d.json", w))
			prog := filepath.Join(work, fmt.Sprintf("prog%d", w))
			scr := filepath.Join(work, fmt.Sprintf("scratch%d", w))
			os.Mkdir(scr, 0o755)
			cmd := exec.Command(os.Args[0], "worker", "-prop", p.ID, "-tier", *tier, "-seed", strconv.FormatInt(*seed, 10),
				"-start", strconv.Itoa(first+w), "-stride", strconv.Itoa(stride), "-count", strconv.Itoa(n),
				"-out", out, "-progress", prog, "-known", *knownPath)
			cmd.Env = append(os.Environ(), "VERIF_SCRATCH="+scr, "GORACE=halt_on_error=1 exitcode=66 history_size=3", "GOTRACEBACK=all")
			var eb bytes.Buffer
			cmd.Stderr = &limitedWriter{w: &eb, n: 1 << 20}
			cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
			// Pdeathsig follows the thread that forks
			runtime.LockOSThread()
			if err := cmd.Start(); err != nil {
				shards[w].exit = err.Error()
				return
			}
			timer := time.AfterFunc(deadline, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
			err := cmd.Wait()
			timer.Stop()
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) // probe children
			s := &shards[w]
			s.stderr = eb.String()
			s.last = -1
			if b, e := os.ReadFile(prog); e == nil {
				if v, e := strconv.Atoi(strings.TrimSpace(string(b))); e == nil {
					s.last = v
				}
			}
			if err != nil {
				s.exit = err.Error()
				if ee, ok := err.(*exec.ExitError); ok {
					s.code = ee.ExitCode()
					if st, ok := ee.Sys().(syscall.WaitStatus); ok {
						s.signal = st.Signaled()
					}
				}
			}
			if b, e := os.ReadFile(out); e == nil && json.Unmarshal(b, &s.res) == nil && s.res.Done {
				s.ok = true
			}
		}(w)
	}
	wg.Wait()

	events := map[string]int{}
	aband := map[string]int{}
	knownHits := map[string]int{}
	keys := map[uint64]bool{}
	var samples []sample
	evals := 0
	type viol struct {
		Case  int
		Msg   string
		Stack string
		Trace []string
	}
	var viols []viol
	var errs []string
	for w := range shards {
		s := &shards[w]
		if !s.ok {
			isCrash := s.code == 66 || s.code == 2 || strings.Contains(s.stderr, "panic:") || strings.Contains(s.stderr, "fatal error:") ||
				strings.Contains(s.stderr, "DATA RACE")
			if isCrash && !s.signal {
				msg := "the process crashed while running the case: "
				if s.code == 66 || strings.Contains(s.stderr, "DATA RACE") {
					msg = "data race reported by the race detector: "
				}
				viols = append(viols, viol{s.last, msg + firstLines(s.stderr, 3), firstLines(s.stderr, 80), nil})
			} else {
				errs = append(errs, fmt.Sprintf("worker %d ended with %q (case %d): %s", w, s.exit, s.last, firstLines(s.stderr, 10)))
			}
			continue
		}
		evals += s.res.Evaluations
		for k, v := range s.res.Events {
			events[k] += v
		}
		for k, v := range s.res.Abandoned {
			aband[k] += v
		}
		for k, v := range s.res.Known {
			knownHits[k] += v
		}
		for _, k := range s.res.Keys {
			keys[k] = true
		}
		samples = append(samples, s.res.Samples...)
		if s.res.Violated {
			viols = append(viols, viol{s.res.Case, s.res.Msg, s.res.Stack, s.res.Trace})
		}
		if s.res.Inconcl != "" {
			errs = append(errs, s.res.Inconcl)
		}
	}
	sort.Slice(viols, func(i, j int) bool { return viols[i].Case < viols[j].Case })
	sort.Slice(samples, func(i, j int) bool { return samples[i].Case < samples[j].Case })
	if len(samples) > 6 {
		samples = samples[:6]
	}
	totalAb := 0
	for _, v := range aband {
		totalAb += v
	}
	level := p.Level
	if level == "" {
		level = "exploration"
	}
	cov := map[string]interface{}{
		"evaluations":         evals,
		"distinct_nontrivial": len(keys),
		"rule":                p.Rule,
		"samples":             samples,
		"events":              events,
		"worker_processes":    nw,
		"race_detector":       p.Race,
	}
	if len(aband) > 0 {
		cov["abandoned"] = aband
	}
	if len(knownHits) > 0 {
		cov["known_findings"] = knownHits
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": *tier, "seed": *seed, "level": level, "coverage": cov,
		"assumptions": p.Assume,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(viols),
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	if *evidence != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(*evidence), 0o755)
		if err := os.WriteFile(*evidence, append(b, '\n'), 0o644); err != nil {
			errs = append(errs, err.Error())
		}
	}
	entries := loadKnown(*knownPath)
	for _, e := range entries {
		if e.Property == p.ID && knownHits[e.Sig] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, e.What)
		}
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d abandoned, %.1fs\n", p.ID, *tier, *seed, evals, len(keys), totalAb, time.Since(t0).Seconds())
	var names []string
	for k := range events {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		fmt.Printf("  observed %-40s %d\n", k, events[k])
	}
	if len(viols) > 0 {
		v := viols[0]
		os.MkdirAll(*replayDir, 0o755)
		path := filepath.Join(*replayDir, fmt.Sprintf("%s-seed%d-case%d.json", p.ID, *seed, v.Case))
		b, _ := json.MarshalIndent(map[string]interface{}{"property": p.ID, "seed": *seed, "tier": *tier, "case": v.Case,
			"message": v.Msg, "stack": v.Stack, "trace": v.Trace}, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("case %d: %s\n", v.Case, v.Msg)
		for _, s := range v.Trace {
			fmt.Println("   ", s)
		}
		if v.Stack != "" {
			fmt.Println(v.Stack)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		os.RemoveAll(work)
		os.Exit(1)
	}
	if len(errs) > 0 {
		for _, e := range errs {
			fmt.Println("inconclusive:", e)
		}
		os.RemoveAll(work)
		os.Exit(3)
	}
	if *only < 0 && (evals == 0 || len(keys) == 0) {
		fmt.Println("inconclusive: nothing was observed")
		os.RemoveAll(work)
		os.Exit(3)
	}
	os.RemoveAll(work)
	os.Exit(0)
}

type limitedWriter struct {
	w io.Writer
	n int
}

func (l *limitedWriter) Write(b []byte) (int, error) {
	if l.n > 0 {
		m := len(b)
		if m > l.n {
			m = l.n
		}
		l.w.Write(b[:m])
		l.n -= m
	}
	return len(b), nil
}

func firstLines(s string, n int) string {
	lines := strings.Split(strings.TrimSpace(s), "\n")
	if len(lines) > n {
		lines = lines[:n]
	}
	return strings.Join(lines, "\n")
}
