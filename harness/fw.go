package main

import (
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
)

// A Suite is one family of generated executions of the library together with
// the monitor that observes them. Case i of a suite is determined by
// (seed, property, suite, i) alone.
type Suite struct {
	Name     string
	Quick    int // cases at tier quick
	Thorough int // cases at tier thorough
	Run      func(t *T)
	Race     bool // run in the binary built with -race
	Cover    bool // run in the binary built with -cover, whose counters count executed steps
	Procs    int  // GOMAXPROCS of the worker processes (default 2)
	Workers  int  // number of worker processes (default 8)
	Exhaust  bool // the cases enumerate a finite space completely
}

// A Prop is one property of properties.jsonl with the suites that decide it.
type Prop struct {
	ID      string
	Rule    string
	Assume  []string
	Suites  []Suite
	Require []string // event counters that must be non-zero on a conclusive run
}

var props []*Prop

func register(p *Prop) { props = append(props, p) }

// violation is what a monitor panics with.
type violation struct{ msg string }

func (v violation) Error() string { return v.msg }

type opRec struct {
	name string
	args []any
}

// T is the context of one case.
type T struct {
	small   bool // bigSize gives small sizes
	safe    bool // containers are made goroutine-safe
	R       *rand.Rand
	Prop    string
	Suite   string
	Case    int
	Seed    int64
	Tier    string
	trace   []opRec
	dropped int
	nops    int64
	sig     uint64
	nontriv bool
	long    int  // the number of operations of a long history
	eager   bool // rare operations are frequent
	bursts  bool // one operation is sometimes repeated many times
	src     *rand.PCG
	saved   rand.PCG
	rep     int
	mu      sync.Mutex
	counts  map[string]int64
	states  map[uint64]struct{}
}

const maxTrace = 4000

// progress is ticked by every operation; the watchdog reads it.
var progress atomic.Int64

func mix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 29
	return h
}

func hashStr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Op records one operation applied to the library.
func (t *T) Op(name string, args ...any) {
	t.nops++
	progress.Add(1)
	if len(t.trace) >= maxTrace {
		// keep the newest operations
		n := copy(t.trace, t.trace[maxTrace/2:])
		t.trace = t.trace[:n]
		t.dropped += maxTrace / 2
	}
	t.trace = append(t.trace, opRec{name, args})
	h := mix(t.sig, uint64(len(name))<<8|uint64(name[0]))
	for i := 1; i < len(name); i += 2 {
		h = mix(h, uint64(name[i]))
	}
	for _, a := range args {
		switch v := a.(type) {
		case int:
			h = mix(h, uint64(v))
		case uint64:
			h = mix(h, v)
		case string:
			h = mix(h, hashStr(v))
		case bool:
			if v {
				h = mix(h, 1)
			}
		default:
			h = mix(h, hashStr(fmt.Sprint(v)))
		}
	}
	t.sig = h
}

// Sig folds more of what distinguishes this case into its signature.
func (t *T) Sig(x uint64) { t.sig = mix(t.sig, x) }

// Tick tells the watchdog that the case is advancing.
func (t *T) Tick() { progress.Add(1) }

// Count counts an observed event.
func (t *T) Count(name string) { t.CountN(name, 1) }

// CountN counts n observed events.
func (t *T) CountN(name string, n int) {
	t.mu.Lock()
	t.counts[name] += int64(n)
	t.mu.Unlock()
}

// State records a distinct abstract state that was observed.
func (t *T) State(h uint64) {
	if len(t.states) < 200000 {
		t.states[h] = struct{}{}
	}
}

// Nontrivial marks the case as having met the property's rule.
func (t *T) Nontrivial() { t.nontriv = true }

// Failf reports a violation.
func (t *T) Failf(format string, args ...any) {
	panic(violation{fmt.Sprintf(format, args...)})
}

func (t *T) Intn(n int) int { return t.R.IntN(n) }

// Chance is true with probability 1/n.
func (t *T) Chance(n int) bool {
	if t.eager && n > 12 {
		n = 12
	}
	return t.R.IntN(n) == 0
}

// steps is how many operations a history has: n, but for one that is to
// outlast every counter an object may keep.
func (t *T) steps(n int) int {
	if t.long > 0 {
		return t.long
	}
	return n
}

// more tells whether a history of n operations goes on with operation i, and
// in a long one with bursts makes it now and then the previous one again, with
// the same arguments.
func (t *T) more(i, n int) bool {
	if t.bursts {
		if t.rep > 0 {
			t.rep--
			*t.src = t.saved
		} else {
			if t.R.IntN(400) == 0 {
				t.rep = []int{1 + t.R.IntN(300), 126, 127, 128, 254, 255, 256}[t.R.IntN(7)]
				if t.R.IntN(60) == 0 {
					t.rep = []int{32767, 65534, 65535, 65536}[t.R.IntN(4)]
				}
				t.CountN("repetitions of one operation", t.rep)
			}
			t.saved = *t.src
		}
	}
	return i < n
}

// level picks how large a history lets its object grow; in a long one it
// stays small, so that all of it can be checked after every operation.
func (t *T) level(ls ...int) int {
	if t.long > 0 {
		ls = ls[:min(2, len(ls))]
	}
	return ls[t.Intn(len(ls))]
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

func (t *T) Trace(max int) []string {
	var out []string
	tr := t.trace
	if len(tr) > max {
		out = append(out, fmt.Sprintf("... %d earlier operations", len(tr)-max+t.dropped))
		tr = tr[len(tr)-max:]
	} else if t.dropped > 0 {
		out = append(out, fmt.Sprintf("... %d earlier operations", t.dropped))
	}
	for _, o := range tr {
		var b strings.Builder
		b.WriteString(o.name)
		b.WriteByte('(')
		for i, a := range o.args {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(clip(fmt.Sprintf("%v", a), 120))
		}
		b.WriteByte(')')
		out = append(out, b.String())
	}
	return out
}

// panics runs f and reports whether it panicked; violations and the scheduler's
// own control panics pass through.
func panics(f func()) (p bool, val any) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(violation); ok {
				panic(r)
			}
			if _, ok := r.(ctlAbort); ok {
				panic(r)
			}
			p, val = true, r
		}
	}()
	f()
	return false, nil
}

// mustPanic fails unless f panics.
func (t *T) mustPanic(what string, f func()) {
	if p, _ := panics(f); !p {
		t.Failf("%s did not panic", what)
	}
	t.Count("panics expected and seen")
}

type caseResult struct {
	viol  string
	stack string
}

// runCase runs one case and turns every panic into a verdict.
func runCase(s *Suite, t *T) (res *caseResult) {
	defer func() {
		if r := recover(); r != nil {
			if v, ok := r.(violation); ok {
				res = &caseResult{viol: v.msg}
				return
			}
			res = &caseResult{viol: fmt.Sprintf("unexpected panic: %v", r), stack: string(debug.Stack())}
		}
	}()
	s.Run(t)
	return nil
}

func newT(prop, suite string, cas int, seed int64, tier string) *T {
	h := mix(hashStr(prop+"/"+suite), uint64(cas))
	src := rand.NewPCG(uint64(seed), h)
	return &T{
		R: rand.New(src), src: src,
		Prop: prop, Suite: suite, Case: cas, Seed: seed, Tier: tier,
		counts: map[string]int64{}, states: map[uint64]struct{}{},
	}
}

func goid() string {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	return strings.Fields(string(buf[:n]))[1]
}
