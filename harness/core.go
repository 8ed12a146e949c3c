package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
)

// Part is one generated check of a property. A property can have several parts.
type Part struct {
	ID, Name, Rule  string
	Quick, Thorough int // number of cases
	drive           func(r *Runner, p *Part, seed uint64, n int) *Failure
	gen             func(t *rapid.T) json.RawMessage
	replay          func(raw json.RawMessage) (error, *Ctx)
}

// Failure is a minimised failing case.
type Failure struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Case     json.RawMessage `json:"case"`
	Message  string          `json:"message"`
}

var parts []*Part

// Ctx is given to each evaluation of a case.
type Ctx struct {
	nontrivial bool
	labels     map[string]int
	counts     map[string]int
	dir        string
}

// Label counts the case into the class.
func (c *Ctx) Label(format string, a ...any) {
	if c.labels == nil {
		c.labels = map[string]int{}
	}
	c.labels[fmt.Sprintf(format, a...)] = 1
}

// Count adds to a measured number (crash points, opened entries and so on).
func (c *Ctx) Count(name string, n int) {
	if c.counts == nil {
		c.counts = map[string]int{}
	}
	c.counts[name] += n
}

// NonTrivial marks the case as non-trivial by the rule of its part.
func (c *Ctx) NonTrivial() { c.nontrivial = true }

// Infra is an error of the harness itself.
type Infra struct{ err error }

func must(err error) {
	if err != nil {
		panic(Infra{err})
	}
}

func infraf(format string, a ...any) { panic(Infra{fmt.Errorf(format, a...)}) }

var scratchRoot string

// shrinkTime is how long a failing case is made smaller.
var shrinkTime time.Duration

// Dir returns scratch directory of this evaluation, removed after it.
func (c *Ctx) Dir() string {
	if c.dir == "" {
		d, err := os.MkdirTemp(scratchRoot, "c")
		must(err)
		c.dir = d
	}
	return c.dir
}

func (c *Ctx) cleanup() {
	if c.dir != "" {
		filepath.WalkDir(c.dir, func(p string, d os.DirEntry, err error) error {
			if err == nil && d.IsDir() {
				os.Chmod(p, 0o777)
			}
			return nil
		})
		os.RemoveAll(c.dir)
		c.dir = ""
	}
}

// PanicErr is a panic of the code under test.
type PanicErr struct {
	val   any
	stack string
}

func (e *PanicErr) Error() string { return fmt.Sprintf("panic: %v\n%s", e.val, e.stack) }

func trimStack(s string) string {
	var lines = strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "harness/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// guard runs the function and turns a panic into an error. Errors of the harness go through.
func guard(f func() error) (err error) {
	var old = debug.SetPanicOnFault(true)
	defer debug.SetPanicOnFault(old)
	defer func() {
		if p := recover(); p != nil {
			if inf, ok := p.(Infra); ok {
				panic(inf)
			}
			err = &PanicErr{p, trimStack(string(debug.Stack()))}
		}
	}()
	return f()
}

func reg[C any](id, name, rule string, quick, thorough int, gen func(*rapid.T) C, run func(*Ctx, C) error) {
	var p = &Part{ID: id, Name: name, Rule: rule, Quick: quick, Thorough: thorough}
	var eval = func(c C) (err error, ctx *Ctx) {
		ctx = &Ctx{}
		defer ctx.cleanup()
		err = guard(func() error { return run(ctx, c) })
		return
	}
	p.gen = func(t *rapid.T) json.RawMessage {
		raw, err := json.Marshal(gen(t))
		must(err)
		return raw
	}
	p.replay = func(raw json.RawMessage) (error, *Ctx) {
		var c C
		must(json.Unmarshal(raw, &c))
		return eval(c)
	}
	p.drive = func(r *Runner, p *Part, seed uint64, n int) *Failure {
		var fail *Failure
		var deadline time.Time
		var expired bool
		var prop = func(t *rapid.T) {
			if fail != nil && time.Now().After(deadline) {
				// rapid looks at its limit between the passes only, and a case can take seconds
				expired = true
				return
			}
			var c = gen(t)
			raw, err := json.Marshal(c)
			must(err)
			// The case goes through its serialised form, so that replay gets the same value.
			var cc C
			must(json.Unmarshal(raw, &cc))
			r.begin(p, raw)
			var t0 = time.Now()
			err, ctx := eval(cc)
			if fail == nil {
				r.note(p, raw, ctx)
			}
			r.stats[p.Name].Slowest = max(r.stats[p.Name].Slowest, time.Since(t0).Seconds())
			if err != nil {
				if fail == nil {
					deadline = time.Now().Add(shrinkTime)
				}
				fail = &Failure{p.ID, p.Name, raw, err.Error()}
				t.Fatalf("violation")
			}
		}
		var inf = runRapid(p.ID+"/"+p.Name, seed, n, prop)
		if inf != nil && fail == nil {
			panic(Infra{inf})
		}
		if fail != nil && inf != nil && !expired && strings.Contains(inf.Error(), "flaky") {
			r.flaky = true
		}
		return fail
	}
	parts = append(parts, p)
}

// tbT implements rapid.TB outside of the testing package.
type tbT struct {
	name   string
	failed bool
	log    []string
}

func (t *tbT) Helper()      {}
func (t *tbT) Name() string { return t.name }
func (t *tbT) Logf(f string, a ...any) {
	t.log = append(t.log, fmt.Sprintf(f, a...))
}
func (t *tbT) Log(a ...any)              { t.log = append(t.log, fmt.Sprint(a...)) }
func (t *tbT) Skipf(f string, a ...any)  { t.SkipNow() }
func (t *tbT) Skip(a ...any)             { t.SkipNow() }
func (t *tbT) SkipNow()                  { runtime.Goexit() }
func (t *tbT) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *tbT) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *tbT) Fatalf(f string, a ...any) { t.Logf(f, a...); t.FailNow() }
func (t *tbT) Fatal(a ...any)            { t.Log(a...); t.FailNow() }
func (t *tbT) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *tbT) Fail()                     { t.failed = true }
func (t *tbT) Failed() bool              { return t.failed }

// Runner collects statistics of a run.
type Runner struct {
	inflight string // file to store each case before evaluation
	stats    map[string]*PartStats
	curPart  *Part
	curRaw   json.RawMessage
	flaky    bool
	mux      sync.Mutex
	begun    atomic.Int64 // number of started cases
}

// PartStats is what a part measured.
type PartStats struct {
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Hashes      []string       `json:"hashes"` // distinct non-trivial cases
	Labels      map[string]int `json:"labels"`
	Counts      map[string]int `json:"counts"`
	Samples     []any          `json:"samples"`
	Seconds     float64        `json:"seconds"`
	Slowest     float64        `json:"slowest"`
	hashes      map[string]struct{}
}

func (r *Runner) begin(p *Part, raw json.RawMessage) {
	r.mux.Lock()
	r.curPart, r.curRaw = p, raw
	r.mux.Unlock()
	if r.inflight != "" {
		b, _ := json.Marshal(Failure{p.ID, p.Name, raw, "worker died in this case"})
		must(os.WriteFile(r.inflight, b, 0o644))
	}
	r.begun.Add(1)
}

func (r *Runner) note(p *Part, raw json.RawMessage, ctx *Ctx) {
	var s = r.stats[p.Name]
	s.Evaluations++
	for l := range ctx.labels {
		s.Labels[l]++
	}
	for l, n := range ctx.counts {
		s.Counts[l] += n
	}
	if ctx.nontrivial {
		s.NonTrivial++
		var h = sha256.Sum256(raw)
		var k = hex.EncodeToString(h[:8])
		if _, ok := s.hashes[k]; !ok {
			s.hashes[k] = struct{}{}
			if len(s.Samples) < 3 && len(raw) < 1500 {
				s.Samples = append(s.Samples, json.RawMessage(append([]byte{}, raw...)))
			} else if len(s.Samples) == 0 && len(s.hashes) > 20 {
				s.Samples = append(s.Samples, string(raw[:1500])+"...")
			}
		}
	}
}

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func partsOf(id string) (res []*Part) {
	for _, p := range parts {
		if p.ID == id {
			res = append(res, p)
		}
	}
	return
}

var errInconclusive = errors.New("inconclusive")

func (r *Runner) run(id string, seed uint64, tier string, only string) (fail *Failure) {
	for i, p := range partsOf(id) {
		if only != "" && p.Name != only {
			continue
		}
		var st = &PartStats{Rule: p.Rule, Labels: map[string]int{}, Counts: map[string]int{}, hashes: map[string]struct{}{}}
		r.stats[p.Name] = st
		var n = p.Quick * 2
		if tier == "thorough" {
			n = p.Thorough
		}
		var t0 = time.Now()
		var s = splitmix(splitmix(seed)+uint64(i)*0x1234567) | 1
		fail = p.drive(r, p, s, n)
		st.Seconds = time.Since(t0).Seconds()
		for h := range st.hashes {
			st.Hashes = append(st.Hashes, h)
		}
		sort.Strings(st.Hashes)
		if fail != nil {
			return
		}
	}
	return
}
