package main

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"testing"
)

// Prop is one property's workload: directed cases first, then random ones.
type Prop struct {
	ID       string
	Race     bool
	Level    string
	Rule     string
	Assume   []string
	Directed []func(*Ctx)
	Random   func(*Ctx)
	Quick    int // number of random cases per tier
	Thorough int
	Serial   bool // run with fewer worker processes (each case uses many threads itself)
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func (p *Prop) cases(tier string) int {
	n := p.Quick
	if tier == "thorough" {
		n = p.Thorough
	}
	return len(p.Directed) + n
}

// Ctx is the context of one case.
type Ctx struct {
	R          *rand.Rand
	Prop       *Prop
	Tier       string
	Seed       int64
	Idx        int
	Directed   bool
	Scratch    string
	trace      []string
	events     map[string]int
	nontrivial bool
	cleanups   []func()
	known      []string // signatures of known findings hit
	knownSet   map[string]bool
}

type violation struct {
	Sig string
	Msg string
}

type abandon struct{ reason string }

// Failf reports a violation of the property.
func (c *Ctx) Failf(format string, args ...interface{}) {
	panic(violation{"", fmt.Sprintf(format, args...)})
}

// FailSig reports a violation that may be listed as a known finding under sig
// (the directed case that demonstrates it); a listed one ends the case quietly.
func (c *Ctx) FailSig(sig, format string, args ...interface{}) {
	panic(violation{sig, fmt.Sprintf(format, args...)})
}

// Abandon ends the case without a verdict (a precondition of the property is gone).
func (c *Ctx) Abandon(reason string) { panic(abandon{reason}) }

func (c *Ctx) Log(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	if len(c.trace) < 400 {
		c.trace = append(c.trace, s)
	}
}

// Ev counts an observed event.
func (c *Ctx) Ev(name string)         { c.events[name]++ }
func (c *Ctx) EvN(name string, n int) { c.events[name] += n }

// NonTrivial marks the case as one whose oracle had something to refute.
func (c *Ctx) NonTrivial() { c.nontrivial = true }

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

func (c *Ctx) Int(n int) int { return c.R.Intn(n) }

// Range returns an int in [lo,hi].
func (c *Ctx) Range(lo, hi int) int { return lo + c.R.Intn(hi-lo+1) }
func (c *Ctx) P(p float64) bool     { return c.R.Float64() < p }
func (c *Ctx) Pick(n ...int) int    { return n[c.R.Intn(len(n))] }

// TempDir returns an empty directory that disappears with the case.
func (c *Ctx) TempDir() string {
	d, err := os.MkdirTemp(c.Scratch, "case")
	if err != nil {
		panic(err)
	}
	c.cleanups = append(c.cleanups, func() { os.RemoveAll(d) })
	return d
}

func (c *Ctx) tracekey() uint64 {
	h := fnv.New64a()
	for _, s := range c.trace {
		h.Write([]byte(s))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// caught runs f and returns the panic value it raised, if any (harness sentinels pass through).
func caught(f func()) (val interface{}, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case violation, abandon:
				panic(r)
			}
			val, panicked = r, true
		}
	}()
	f()
	return nil, false
}

func (c *Ctx) mustPanic(what string, f func()) {
	if _, p := caught(f); !p {
		c.Failf("%s: expected a panic, none happened", what)
	}
	c.Ev("expected-panic")
}

// caseOutcome is what one case ended with.
type caseOutcome struct {
	violated  bool
	abandoned string
	known     string
	msg       string
	stack     string
}

func runCase(c *Ctx, f func(*Ctx)) (out caseOutcome) {
	defer func() {
		if r := recover(); r != nil {
			switch v := r.(type) {
			case violation:
				if v.Sig != "" && c.knownSet[v.Sig] {
					out.known = v.Sig
				} else {
					out.violated, out.msg = true, v.Msg
				}
			case abandon:
				out.abandoned = v.reason
			default:
				out.violated = true
				out.msg = fmt.Sprintf("unexpected panic: %v", r)
				out.stack = trimStack(string(debug.Stack()))
			}
		}
		for i := len(c.cleanups) - 1; i >= 0; i-- {
			c.cleanups[i]()
		}
	}()
	f(c)
	return
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 60 {
		lines = lines[:60]
	}
	return strings.Join(lines, "\n")
}

func scratchRoot() string {
	d := os.Getenv("VERIF_SCRATCH")
	if d == "" {
		d = os.TempDir()
	}
	return filepath.Clean(d)
}

// mix derives a per-case seed.
func mix(seed int64, prop string, idx int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, prop, idx)
	v := h.Sum64()
	v ^= v >> 31
	v *= 0x9E3779B97F4A7C15
	v ^= v >> 29
	return int64(v >> 1)
}

var testingInit sync.Once

// asTest runs f as a test of its own and tells whether that test passes, and what f returns.
func asTest(f func(t *testing.T) bool) (passed, returned bool) {
	testingInit.Do(testing.Init)
	t := new(testing.T)
	done := make(chan interface{})
	go func() {
		var p interface{} = "no panic"
		defer func() {
			if r := recover(); r != nil {
				p = r
			}
			done <- p
		}()
		returned = f(t)
	}()
	if p := <-done; p != "no panic" {
		panic(p)
	}
	return !t.Failed(), returned
}
