package main

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"sort"
	"strings"
	gosync "sync"
	"sync/atomic"

	"github.com/liyue201/gostl/algorithm"
	"github.com/liyue201/gostl/algorithm/hash"
	algosort "github.com/liyue201/gostl/algorithm/sort"
	"github.com/liyue201/gostl/ds/bitmap"
	bloom "github.com/liyue201/gostl/ds/bloomfilter"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/ketama"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/rbtree"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/ds/stack"
	"github.com/liyue201/gostl/ds/vector"
	"github.com/liyue201/gostl/utils/comparator"
)

var subjects = allSubjects()

// ---- histories and their linearizations ----

type hop struct {
	w         int
	o         concOp
	call, ret int
	res       string
	detail    string
}

// doOp runs one operation; a panic of the library or of the user's callbacks is
// a result, those of the harness pass.
func doOp(in *concInst, o concOp) (res, detail string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(violation); ok {
				panic(r)
			}
			if _, ok := r.(ctlAbort); ok {
				panic(r)
			}
			res, detail = panicked, fmt.Sprint(r)
		}
	}()
	return in.do(o), ""
}

// linearizable searches an order of the operations that respects real time and
// the model. It returns the number of partial orders looked at.
func linearizable(h []hop, init string, step func(string, concOp) (string, string)) (bool, int) {
	n := len(h)
	type node struct {
		done uint64
		st   string
	}
	seen := map[node]bool{}
	var rec func(done uint64, st string) bool
	rec = func(done uint64, st string) bool {
		if done == 1<<n-1 {
			return true
		}
		k := node{done, st}
		if seen[k] {
			return false
		}
		seen[k] = true
		minRet := int(^uint(0) >> 1)
		for i := range h {
			if done>>i&1 == 0 {
				minRet = min(minRet, h[i].ret)
			}
		}
		for i := range h {
			if done>>i&1 == 0 && h[i].call < minRet {
				if ns, r := step(st, h[i].o); r == h[i].res && rec(done|1<<i, ns) {
					return true
				}
			}
		}
		return false
	}
	return rec(0, init), len(seen)
}

func showHist(h []hop) string {
	h = append([]hop(nil), h...)
	sort.Slice(h, func(i, j int) bool { return h[i].call < h[j].call })
	var b strings.Builder
	for _, x := range h {
		fmt.Fprintf(&b, "\n  [%d,%d] worker %d: %v = %q %s", x.call, x.ret, x.w, x.o, x.res, x.detail)
	}
	return b.String()
}

// observers are the operations that together tell the whole state.
func (s *subject) observers(t *T, st string) (out []concOp) {
	has := map[string]bool{}
	for _, o := range s.ops {
		has[o] = true
	}
	switch {
	case s.name == "ketama":
		for i := 0; i < 8; i++ {
			out = append(out, concOp{"Get", 0, i})
		}
	case has["Pop"]:
		out = append(out, concOp{"Size", 0, 0})
		if has["String"] {
			out = append(out, concOp{"String", 0, 0})
		}
		for i := 0; i < 4; i++ {
			out = append(out, concOp{"Pop", 0, 0})
		}
	case has["Data"]:
		out = append(out, concOp{"Data", 0, 0})
	default:
		out = append(out, concOp{"Traversal", 0, 0})
		if has["Size"] {
			out = append(out, concOp{"Size", 0, 0})
		}
		for k := 0; k < 4; k++ {
			if has["Get"] {
				out = append(out, concOp{"Get", k, 0})
			} else {
				out = append(out, concOp{"Contains", k, 0})
			}
		}
	}
	return
}

type plan struct {
	s     *subject
	setup []concOp
	prog  [][]concOp
}

func makePlan(t *T, s *subject, ops []string, maxWorkers, maxOps int) *plan {
	p := &plan{s: s}
	id := 0
	grown := 0
	op := func(names []string) concOp {
		id++
		o := concOp{names[t.Intn(len(names))], t.Intn(4), id}
		if grown > 0 && t.Chance(3) {
			o.a = 100 + t.Intn(grown+2)
		}
		return o
	}
	var w []string
	for _, o := range ops {
		if o == "Push" || o == "Insert" || o == "Add" {
			w = append(w, o)
		}
	}
	for i, n := 0, t.Intn(5); i < n; i++ {
		p.setup = append(p.setup, op(w))
	}
	if t.Chance(30) {
		// a container that holds many elements before
		grown = 10 + t.Intn(130)
		if t.Chance(2) {
			grown = 120 + t.Intn(12) // around a segment of the deque
		}
		from := t.Intn(2)
		for i := 0; i < grown; i++ {
			k := i
			if from == 1 {
				k = grown - 1 - i
			}
			id++
			p.setup = append(p.setup, concOp{w[0], 100 + k, id})
		}
		t.Count("histories on containers that hold many elements")
	}
	// a few operations often collide more than many
	few := ops
	if t.Chance(2) {
		few = nil
		for i := 0; i < 3; i++ {
			few = append(few, ops[t.Intn(len(ops))])
		}
	}
	for i, n := 0, 2+t.Intn(maxWorkers-1); i < n; i++ {
		var pr []concOp
		for j, k := 0, 1+t.Intn(maxOps); j < k; j++ {
			pr = append(pr, op(few))
		}
		p.prog = append(p.prog, pr)
	}
	return p
}

func (p *plan) record(t *T) {
	t.Op("container", p.s.name)
	t.Op("before", fmt.Sprint(p.setup))
	for i, pr := range p.prog {
		t.Op("worker", i, fmt.Sprint(pr))
	}
	t.Count("histories of " + p.s.name)
}

// setUp builds the container and brings it and the model to the same state.
func (p *plan) setUp(t *T, hook func()) (*concInst, string) {
	in := p.s.mk(hook)
	st := ""
	for _, o := range p.setup {
		res, det := doOp(in, o)
		var want string
		if st, want = p.s.step(st, o); res != want {
			t.Failf("%s: %v = %q %s, want %q, with one goroutine", p.s.name, o, res, det, want)
		}
	}
	return in, st
}

func (p *plan) judge(t *T, h []hop, st string) {
	ok, n := linearizable(h, st, p.s.step)
	if !ok {
		t.Failf("%s: no order of these operations explains their results, starting from %v:%s", p.s.name, p.setup, showHist(h))
	}
	t.CountN("partial orders searched", n)
	overlap := 0
	for i := range h {
		for j := range h[:i] {
			if h[i].w != h[j].w && h[i].call < h[j].ret && h[j].call < h[i].ret {
				overlap++
			}
		}
	}
	t.CountN("overlapping pairs of operations", overlap)
	if overlap > 0 {
		t.Nontrivial()
	}
	t.CountN("operations in histories", len(h))
}

func runLinControlled(t *T) {
	s := subjects[t.Case%len(subjects)]
	p := makePlan(t, s, s.ops, 4, 4)
	p.record(t)
	c := newCtl(t)
	in, st := p.setUp(t, c.hook)
	for _, x := range in.ptr {
		if !c.inject(x, s.name) {
			t.Count("containers whose lock was not found")
			p.threads(t)
			return
		}
	}
	hs := make([][]hop, len(p.prog))
	var bodies []func()
	for w := range p.prog {
		bodies = append(bodies, func() {
			for _, o := range p.prog[w] {
				c.yield("between")
				if c.cur != nil {
					c.ws[w].op = o.String()
				}
				call := c.tick()
				res, det := doOp(in, o)
				hs[w] = append(hs[w], hop{w, o, call, c.tick(), res, det})
				t.Tick()
			}
		})
	}
	if d := c.run(bodies); d != "" {
		t.Failf("%s: deadlock: %s", s.name, d)
	}
	t.Sig(c.sig)
	t.State(c.sig)
	t.CountN("scheduling decisions", c.steps)
	t.CountN("switches between workers", c.switches)
	t.CountN("waits for a lock", c.lockWait)
	var h []hop
	for _, x := range hs {
		h = append(h, x...)
	}
	for _, o := range s.observers(t, st) {
		call := c.tick()
		res, det := doOp(in, o)
		h = append(h, hop{len(hs), o, call, c.tick(), res, det})
	}
	p.judge(t, h, st)
}

// threads runs the plan on real threads.
func (p *plan) threads(t *T) {
	var clock atomic.Int64
	var noise atomic.Uint64
	mode := t.Intn(4)
	seed := t.R.Uint64()
	hook := func() {
		if mode == 0 {
			return
		}
		x := mix(seed, noise.Add(1))
		switch {
		case x%5 == 0:
			runtime.Gosched()
		case x%7 == 0 && mode == 2:
			for i := 0; i < int(x>>8%400); i++ {
				_ = noise.Load()
			}
		}
	}
	in, st := p.setUp(t, hook)
	hs := make([][]hop, len(p.prog))
	var wg gosync.WaitGroup
	var ready atomic.Int64
	for w := range p.prog {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, uint64(w)))
			ready.Add(1)
			for spin := 0; ready.Load() < int64(len(p.prog)); spin++ {
				if spin%100 == 99 {
					runtime.Gosched()
				}
			}
			for _, o := range p.prog[w] {
				for i := r.IntN(60); i > 0; i-- {
					_ = noise.Load()
				}
				call := int(clock.Add(1))
				res, det := doOp(in, o)
				hs[w] = append(hs[w], hop{w, o, call, int(clock.Add(1)), res, det})
				t.Tick()
			}
		}()
	}
	wg.Wait()
	var h []hop
	for _, x := range hs {
		h = append(h, x...)
	}
	for _, o := range p.s.observers(t, st) {
		call := int(clock.Add(1))
		res, det := doOp(in, o)
		h = append(h, hop{len(hs), o, call, int(clock.Add(1)), res, det})
	}
	p.judge(t, h, st)
}

func runLinThreads(t *T) {
	s := subjects[t.Case%len(subjects)]
	p := makePlan(t, s, s.ops, 4, 5)
	p.record(t)
	p.threads(t)
}

// ---- C27 two sets ----

// setVer is a set as it was between two calls of its only writer.
type setVer struct {
	keys        string // sorted, as setKeys shows them
	m           map[int]bool
	begin, over int // it may have been seen from begin until over
}

// runLinSets: each of two or three goroutine-safe sets is changed by a
// goroutine of its own while others combine them. Both operands must have been
// seen as they were at one moment of the call (not the same one: the sets have
// a lock each), the same moment if they are one set.
func runLinSets(t *T) {
	n := 2 + t.Intn(2)
	span := []int{3, 6, 12}[t.Intn(3)]
	grown := 0
	if t.Chance(20) {
		grown = 20 + t.Intn(180)
	}
	controlled := !t.Chance(3)
	c := newCtl(t)
	var noise atomic.Uint64
	seed := t.R.Uint64()
	mode := t.Intn(3)
	sets := make([]*set.Set[int], n)
	vers := make([][]setVer, n)
	hook := func() {
		if controlled {
			c.hook()
		} else if x := mix(seed, noise.Add(1)); mode > 0 && x%5 == 0 {
			runtime.Gosched()
		}
	}
	show := func(m map[int]bool) string {
		var ks []int
		for k := range m {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		return list(ks)
	}
	for i := range sets {
		cmp := hookedCmp(hook)
		if grown > 0 {
			cmp = func(a, b int) int { // so many calls need not all be places to switch
				if (a+b)%17 == 0 {
					hook()
				}
				return refOrd(a, b)
			}
		}
		sets[i] = set.New[int](cmp, set.WithGoroutineSafe())
		m := map[int]bool{}
		for j := 0; j < grown; j++ {
			m[100+2*j+i%2*(j%2)] = true
		}
		for j, k := 0, t.Intn(span+1); j < k; j++ {
			m[t.Intn(span)] = true
		}
		for k := range m {
			m[k] = true
		}
		var ks []int
		for k := range m {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		for _, k := range ks {
			sets[i].Insert(k)
		}
		vers[i] = []setVer{{m: m, keys: show(m)}}
		t.Op("set", i, vers[i][0].keys)
		if controlled && !c.inject(sets[i], fmt.Sprintf("set %d", i)) {
			t.Count("containers whose lock was not found")
			controlled = false
		}
	}
	var clock atomic.Int64
	tick := func() int {
		if controlled {
			return c.tick()
		}
		return int(clock.Add(1))
	}
	yield := func() {
		if controlled {
			c.yield("between")
		}
	}
	type comb struct {
		op, a, b  int
		call, ret int
		got       string
	}
	names := []string{"Intersect", "Union", "Diff"}
	var combs [3][]comb
	var bodies []func()
	w := 0
	for i := range sets {
		type change struct{ op, k int }
		var plan []change
		for j, k := 0, 1+t.Intn(4); j < k; j++ {
			x := change{t.Intn(7), t.Intn(span)}
			if grown > 0 && t.Chance(2) {
				x.k = 100 + t.Intn(2*grown)
			}
			plan = append(plan, x)
			t.Op("change", i, x.op, x.k)
		}
		me := w
		w++
		bodies = append(bodies, func() {
			for _, x := range plan {
				yield()
				if controlled && c.cur != nil {
					c.ws[me].op = "a change"
				}
				m := map[int]bool{}
				old := &vers[i][len(vers[i])-1]
				for k := range old.m {
					m[k] = true
				}
				call := tick()
				switch {
				case x.op < 3:
					sets[i].Insert(x.k)
					m[x.k] = true
				case x.op < 6:
					sets[i].Erase(x.k)
					delete(m, x.k)
				default:
					sets[i].Clear()
					m = map[int]bool{}
				}
				old.over = tick()
				vers[i] = append(vers[i], setVer{m: m, keys: show(m), begin: call})
				t.Tick()
			}
		})
	}
	for q, nq := 0, 1+t.Intn(2); q < nq; q++ {
		var plan []comb
		for j, k := 0, 1+t.Intn(4); j < k; j++ {
			x := comb{op: t.Intn(3), a: t.Intn(n), b: t.Intn(n)}
			plan = append(plan, x)
			t.Op("combine", q, names[x.op], x.a, x.b)
		}
		me := w
		w++
		bodies = append(bodies, func() {
			for _, x := range plan {
				yield()
				if controlled && c.cur != nil {
					c.ws[me].op = fmt.Sprintf("%s of sets %d and %d", names[x.op], x.a, x.b)
				}
				a, b := sets[x.a], sets[x.b]
				x.call = tick()
				r := []func(*set.Set[int]) *set.Set[int]{a.Intersect, a.Union, a.Diff}[x.op](b)
				x.ret = tick()
				x.got = setKeys(r)
				combs[q] = append(combs[q], x)
				t.Tick()
			}
		})
	}
	if controlled {
		if d := c.run(bodies); d != "" {
			t.Failf("sets: deadlock: %s", d)
		}
		t.Sig(c.sig)
		t.State(c.sig)
		t.CountN("switches between workers", c.switches)
	} else {
		together(bodies)
	}
	for _, q := range combs {
		for _, x := range q {
			ok, overlaps := false, 0
			seen := func(v setVer) bool {
				return v.begin < x.ret && (v.over == 0 || v.over > x.call)
			}
			for i, va := range vers[x.a] {
				for j, vb := range vers[x.b] {
					if !seen(va) || !seen(vb) || x.a == x.b && i != j {
						continue
					}
					overlaps++
					out := map[int]bool{}
					for k := range va.m {
						if x.op == 1 || vb.m[k] == (x.op == 0) {
							out[k] = true
						}
					}
					for k := range vb.m {
						if x.op == 1 {
							out[k] = true
						}
					}
					ok = ok || show(out) == x.got
				}
			}
			if !ok {
				var b strings.Builder
				for _, y := range []int{x.a, x.b} {
					fmt.Fprintf(&b, "\n  set %d:", y)
					for _, v := range vers[y] {
						fmt.Fprintf(&b, " %q from %d to %d;", v.keys, v.begin, v.over)
					}
				}
				t.Failf("%s of set %d with set %d, called at %d, returned at %d: the result %q is of no two states the sets had meanwhile:%s", names[x.op], x.a, x.b, x.call, x.ret, x.got, b.String())
			}
			t.Count("results of set algebra judged")
			if overlaps > 1 {
				t.Count("sets combined while they changed")
				if x.a == x.b {
					t.Count("a set combined with itself while it changed")
				}
				t.Nontrivial()
			}
		}
	}
}

// ---- C28 locks ----

type userPanic struct{}

// runLocks drives a container, or sets combined with each other, under the
// scheduler with callbacks that sometimes panic. No state may be a deadlock, and
// when everyone is done no lock may be held.
func runLocks(t *T) {
	if t.Case%3 == 0 {
		runCrossing(t)
		return
	}
	s := subjects[(t.Case/3)%len(subjects)]
	p := makePlan(t, s, s.ops, 4, 4)
	p.record(t)
	c := newCtl(t)
	odds := []int{0, 5, 20, 60}[t.Intn(4)]
	thrown := 0
	in, _ := p.setUp(t, func() {
		if c.cur == nil || c.free.Load() {
			return
		}
		c.hook()
		if odds > 0 && !c.free.Load() && t.Chance(odds) {
			thrown++
			panic(userPanic{})
		}
	})
	for _, x := range in.ptr {
		if !c.inject(x, s.name) {
			t.Count("containers whose lock was not found")
			t.Nontrivial()
			return
		}
	}
	var bodies []func()
	for w := range p.prog {
		bodies = append(bodies, func() {
			for _, o := range p.prog[w] {
				c.yield("between")
				if c.cur != nil {
					c.ws[w].op = o.String()
				}
				if res, _ := doOp(in, o); res == panicked {
					t.Count("operations that panicked")
				}
				t.Tick()
			}
		})
	}
	c.finish(bodies, s.name)
	// and every operation can still be called
	seen := map[string]bool{}
	for _, o := range s.ops {
		if !seen[o] {
			seen[o] = true
			doOp(in, concOp{o, t.Intn(4), 99})
		}
	}
	c.checkFree(s.name)
	t.CountN("callbacks that panicked", thrown)
}

func (c *ctl) finish(bodies []func(), name string) {
	t := c.t
	if d := c.run(bodies); d != "" {
		t.Failf("%s: deadlock: %s", name, d)
	}
	c.checkFree(name)
	t.Sig(c.sig)
	t.State(c.sig)
	t.CountN("scheduling decisions", c.steps)
	t.CountN("waits for a lock", c.lockWait)
	if c.switches > len(bodies) {
		t.Nontrivial()
	}
}

func (c *ctl) checkFree(name string) {
	if c.free.Load() {
		return
	}
	for _, s := range c.locks {
		if s.writer || s.readers > 0 {
			c.t.Failf("%s: all operations have returned, but the %s is still held (writer %v, %d readers)", name, s.name, s.writer, s.readers)
		}
	}
}

// runCrossing combines goroutine-safe sets with each other in both directions
// and with themselves while they are changed.
func runCrossing(t *T) {
	c := newCtl(t)
	n := 2 + t.Intn(2)
	sets := make([]*set.Set[int], n)
	for i := range sets {
		sets[i] = set.New[int](func(a, b int) int {
			if !c.free.Load() && t.Chance(3) {
				c.hook()
			}
			return refOrd(a, b)
		}, set.WithGoroutineSafe())
		for j, k := 0, t.Intn(5); j < k; j++ {
			sets[i].Insert(t.Intn(6))
		}
		if !c.inject(sets[i], fmt.Sprintf("set %d", i)) {
			t.Count("containers whose lock was not found")
			t.Nontrivial()
			return
		}
	}
	var bodies []func()
	nw := 2 + t.Intn(3)
	facing := t.Chance(2) // two sets combined with each other, and a writer to each
	if facing {
		nw = 4
	}
	for w := 0; w < nw; w++ {
		type call struct{ op, a, b, k int }
		var calls []call
		for j, k := 0, 1+t.Intn(3); j < k; j++ {
			x := call{t.Intn(7), t.Intn(n), t.Intn(n), t.Intn(6)}
			if facing {
				x.a, x.b = w%2, 1-w%2
				if w < 2 {
					x.op = t.Intn(3)
				} else {
					x.op = 3 + t.Intn(2)
				}
			}
			calls = append(calls, x)
			t.Op("worker", w, x.op, x.a, x.b, x.k)
		}
		bodies = append(bodies, func() {
			for _, x := range calls {
				c.yield("between")
				a, b := sets[x.a], sets[x.b]
				if c.cur != nil {
					c.ws[w].op = fmt.Sprintf("%s set %d, set %d", []string{"Intersect", "Union", "Diff", "Insert", "Erase", "Contains", "Traversal"}[x.op], x.a, x.b)
				}
				switch x.op {
				case 0:
					a.Intersect(b)
				case 1:
					a.Union(b)
				case 2:
					a.Diff(b)
				case 3:
					a.Insert(x.k)
				case 4:
					a.Erase(x.k)
				case 5:
					a.Contains(x.k)
				case 6:
					a.Traversal(func(int) bool { c.hook(); return true })
				}
				if x.op < 3 {
					t.Count("sets combined under contention")
				}
				t.Tick()
			}
		})
	}
	c.finish(bodies, "sets")
}

// doOpGoexit runs an operation on a goroutine of its own, whose callbacks may
// end it by runtime.Goexit (as t.FailNow does in a test).
func doOpGoexit(in *concInst, o concOp) (res string) {
	var bad any
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() { bad = recover() }()
		res, _ = doOp(in, o)
	}()
	<-done
	if bad != nil {
		panic(bad)
	}
	return
}

// runPanics: one goroutine; an operation panics (an empty container, a callback)
// and then every operation is called: none may find a lock still held.
func runPanics(t *T) {
	s := subjects[t.Case%len(subjects)]
	armed := -1
	exit, exited := false, 0
	in := s.mk(func() {
		if armed == 0 {
			armed = -1
			if exit {
				exited++
				runtime.Goexit()
			}
			panic(userPanic{})
		}
		if armed > 0 {
			armed--
		}
	})
	c := newCtl(t)
	real := t.Chance(2) // on the container's own lock a hang is the symptom
	t.Op("container", s.name, real)
	if !real {
		for _, x := range in.ptr {
			if !c.inject(x, s.name) {
				t.Count("containers whose lock was not found")
				real = true
				break
			}
		}
	}
	for i, n := 0, t.Intn(6); i < n; i++ {
		o := s.ops[0] // Push, Insert or Add
		doOp(in, concOp{o, t.Intn(4), i})
	}
	grown := 0
	if t.Chance(40) {
		grown = raceFill(t, s, in, false) // Clear is no help against many
		t.Count("panics in containers that hold many elements")
	}
	for i := 0; i < 12; i++ {
		o := concOp{s.ops[t.Intn(len(s.ops))], raceArg(t, grown), i}
		exit = false
		if t.Chance(2) {
			armed = t.Intn(4)
			if grown > 0 && t.Chance(2) {
				armed = t.Intn(grown)
			}
			exit = t.Chance(6)
		}
		t.Op(o.name, o.a, armed, exit)
		var res string
		if exit {
			before := exited
			res = doOpGoexit(in, o)
			if exited > before {
				res = panicked
				t.Count("operations ended by Goexit in a callback")
			}
		} else {
			res, _ = doOp(in, o)
		}
		armed = -1
		if res == panicked {
			t.Count("operations that panicked")
			t.Nontrivial()
			seen := map[string]bool{}
			for _, n := range s.ops {
				if !seen[n] && n != "Clear" {
					seen[n] = true
					t.Tick()
					doOp(in, concOp{n, t.Intn(4), 50 + i})
				}
			}
		}
		c.checkFree(s.name)
	}
	t.Count("histories of " + s.name)
	t.Nontrivial()
}

// ---- C26 races: these run in the binary built with -race ----

type opPair struct {
	s    *subject
	a, b string
}

var racePairs = func() (out []opPair) {
	for _, s := range subjects {
		var ops []string
		seen := map[string]bool{}
		for _, o := range s.ops {
			if !seen[o] {
				seen[o] = true
				ops = append(ops, o)
			}
		}
		for i := range ops {
			for j := i; j < len(ops); j++ {
				out = append(out, opPair{s, ops[i], ops[j]})
			}
		}
	}
	return
}()

// together runs the bodies on goroutines of their own, released at once, with
// nothing that would order one after the other.
func together(bodies []func()) {
	var wg gosync.WaitGroup
	start := make(chan struct{})
	for _, b := range bodies {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			b()
		}()
	}
	close(start)
	wg.Wait()
}

// raceFill puts a few elements into a container, or none, or many.
func raceFill(t *T, s *subject, in *concInst, few bool) (grown int) {
	n := 2 + t.Intn(5)
	switch {
	case t.Chance(6):
		n = 0
		t.Count("races on containers empty at first")
	case !few && t.Chance(4):
		grown = 20 + t.Intn(600)
		if s.name == "ketama" {
			grown = 20 + t.Intn(100)
		}
		t.Count("races on containers that hold many elements")
	}
	for i := 0; i < n; i++ {
		doOp(in, concOp{s.ops[0], t.Intn(4), i})
	}
	for i := 0; i < grown; i++ {
		doOp(in, concOp{s.ops[0], 100 + i, i})
	}
	return
}

func raceArg(t *T, grown int) int {
	if grown > 0 && t.Chance(2) {
		return 100 + t.Intn(grown+2)
	}
	return t.Intn(4)
}

func runRacePairs(t *T) {
	p := racePairs[t.Case%len(racePairs)]
	t.Op("pair", p.s.name, p.a, p.b)
	in := p.s.mk(nil)
	grown := raceFill(t, p.s, in, p.a == "Clear" || p.b == "Clear")
	var bodies []func()
	for w, name := range []string{p.a, p.b} {
		var ops []concOp
		spins := make([]int, 4)
		for i := 0; i < 4; i++ {
			ops = append(ops, concOp{name, raceArg(t, grown), 10*(w+1) + i})
			spins[i] = t.Intn(200)
		}
		bodies = append(bodies, func() {
			x := 0
			for i, o := range ops {
				for j := 0; j < spins[i]; j++ {
					x += j
				}
				doOp(in, o)
				if x%3 == 0 {
					runtime.Gosched()
				}
			}
		})
	}
	together(bodies)
	t.Count("pairs of " + p.s.name)
	t.Nontrivial()
}

func runRaceStress(t *T) {
	s := subjects[t.Case%len(subjects)]
	in := s.mk(nil)
	t.Op("stress", s.name)
	grown := raceFill(t, s, in, false)
	var bodies []func()
	for w := 0; w < 4; w++ {
		var ops []concOp
		for i := 0; i < 60; i++ {
			ops = append(ops, concOp{s.ops[t.Intn(len(s.ops))], raceArg(t, grown) + t.Intn(3), (w*60 + i) % 250})
			t.Sig(uint64(ops[i].a)<<8 | uint64(len(ops[i].name)))
		}
		bodies = append(bodies, func() {
			for i, o := range ops {
				doOp(in, o)
				if i%7 == w {
					runtime.Gosched()
				}
			}
		})
	}
	together(bodies)
	t.Count("stress runs of " + s.name)
	t.Nontrivial()
}

// runRaceTwoSets combines two sets in both directions while both are changed.
func runRaceTwoSets(t *T) {
	grown := 0
	if t.Chance(5) {
		grown = t.Intn(300)
	}
	mk := func() *set.Set[int] {
		s := set.New[int](refOrd[int], set.WithGoroutineSafe())
		for i := 0; i < 4; i++ {
			s.Insert(t.Intn(8))
		}
		for i := 0; i < grown; i++ {
			s.Insert(10 + i)
		}
		return s
	}
	a, b := mk(), mk()
	if t.Chance(5) {
		b = set.New[int](refOrd[int], set.WithGoroutineSafe()) // empty at first
	}
	alg := t.Intn(3)
	comb := func(x, y *set.Set[int]) func() {
		return func() {
			for i := 0; i < 4; i++ {
				switch alg {
				case 0:
					x.Union(y)
				case 1:
					x.Intersect(y)
				default:
					x.Diff(y)
				}
			}
		}
	}
	mut := func(x *set.Set[int]) func() {
		return func() {
			for i := 0; i < 6; i++ {
				x.Insert(i)
				x.Erase(i - 1)
			}
		}
	}
	t.Op("two sets", alg, t.Case)
	bodies := []func(){comb(a, b), mut(b)}
	if t.Chance(2) {
		bodies = append(bodies, comb(b, a), mut(a))
	}
	together(bodies)
	t.Count("pairs of sets combined")
	t.Nontrivial()
}

// runRaceSeparate: goroutines that share no container must not race, not even
// with containers that are not goroutine-safe.
func runRaceSeparate(t *T) {
	n := 2 + t.Intn(3)
	t.Op("separate", n, t.Case)
	var bodies []func()
	for w := 0; w < n; w++ {
		seed := t.R.Uint64()
		bodies = append(bodies, func() { useEverything(rand.New(rand.NewPCG(seed, 1))) })
	}
	together(bodies)
	t.Count("separate instances")
	t.Nontrivial()
}

func useEverything(r *rand.Rand) {
	v := vector.New[int]()
	d := deque.New[int]()
	bl := bidlist.New[int]()
	sl := simplelist.New[int]()
	q := queue.New[int]()
	q2 := queue.New[int](queue.WithListContainer[int]())
	s := stack.New[int]()
	pq := priorityqueue.New[int](comparator.IntComparator)
	tr := rbtree.New[int, int](comparator.OrderedTypeCmp[int])
	m := treemap.New[int, int](comparator.IntComparator)
	mm := treemap.NewMultiMap[int, int](comparator.IntComparator)
	st := set.New[int](comparator.IntComparator)
	ms := set.NewMultiSet[int](comparator.IntComparator)
	sk := skiplist.New[int, int](comparator.IntComparator)
	h := hamt.New[int]()
	bf := bloom.New(100, 10)
	bs := bloom.NewWithEstimates(10, 0.1, bloom.WithGoroutineSafe())
	k := ketama.New()
	bm := bitmap.New(40)
	for i := 0; i < 150; i++ { // past a segment of the deque
		d.PushBack(i)
		if i%3 == 0 {
			d.PopFront()
		}
	}
	for i := 0; i < 20; i++ {
		x := r.IntN(12)
		v.PushBack(x)
		d.PushFront(x)
		bl.PushBack(x)
		sl.PushBack(x)
		q.Push(x)
		q2.Push(x)
		s.Push(x)
		pq.Push(x)
		tr.Insert(x, i)
		m.Insert(x, i)
		mm.Insert(x, i)
		st.Insert(x)
		ms.Insert(x)
		sk.Insert(x, i)
		h.Insert(hamt.Key{byte(x)}, i)
		bf.Add(fmt.Sprint(x))
		bs.Add(fmt.Sprint(x))
		k.Add(fmt.Sprint(x))
		bm.Set(uint64(x))
		if i%4 == 3 {
			v.PopBack()
			d.PopBack()
			bl.PopFront()
			q.Pop()
			q2.Pop()
			s.Pop()
			pq.Pop()
			if n := tr.FindNode(x); n != nil {
				tr.Delete(n)
			}
			m.Erase(x)
			mm.Erase(x)
			st.Erase(x)
			ms.Erase(x)
			sk.Remove(x)
			h.Erase(hamt.Key{byte(x)})
			k.Remove(fmt.Sprint(x))
			bm.Unset(uint64(x))
		}
		sk.Get(x)
		h.Get(hamt.Key{byte(x)})
		bf.Contains(fmt.Sprint(x))
		k.Get(fmt.Sprint(x))
		m.Get(x)
		st.Contains(x)
	}
	algosort.Sort[int](v.Begin(), v.End(), comparator.IntComparator)
	algosort.Stable[int](d.Begin(), d.End(), comparator.IntComparator)
	algosort.NextPermutation[int](v.Begin(), v.End(), comparator.IntComparator)
	w := slice.NewSliceWrapper([]int{3, 1, 2})
	algosort.NthElement[int](w.Begin(), w.End(), 1, comparator.IntComparator)
	algorithm.Reverse[int](w.Begin(), w.End())
	algorithm.Count[int](v.Begin(), v.End(), 3, comparator.IntComparator)
	hash.GenHashInts([]byte("x"), 20)
	st.Union(set.New[int](comparator.IntComparator))
	_ = st.String() + d.String() + bl.String() + q.String()
	bloom.NewFromData(bf.Data())
}

func init() {
	var hist []string
	for _, s := range subjects {
		hist = append(hist, "histories of "+s.name)
	}
	var pairs []string
	for _, s := range subjects {
		pairs = append(pairs, "pairs of "+s.name, "stress runs of "+s.name)
	}
	var long, use []string
	for _, n := range ownNames {
		use = append(use, "long use of "+n)
		long = append(long, "long histories of "+n)
	}
	register(&Prop{ID: "C26",
		Rule: fmt.Sprintf("built with -race: every one of the %d pairs of operations of the %d goroutine-safe containers and constructors, on two goroutines with no other synchronization, on containers empty, small or holding up to 620 elements; four goroutines mixing all operations; two sets combined in both directions while they change; goroutines that each use containers of their own of every type; up to 160 operations of each of four goroutines on containers of up to some 2500 elements; non-trivial always", len(racePairs), len(subjects)),
		Suites: []Suite{
			{Name: "pairs", Quick: 3 * len(racePairs), Thorough: 60 * len(racePairs), Run: runRacePairs, Race: true, Procs: 4, Workers: 6},
			{Name: "stress", Quick: 20 * len(subjects), Thorough: 400 * len(subjects), Run: runRaceStress, Race: true, Procs: 4, Workers: 6},
			{Name: "sets", Quick: 300, Thorough: 9000, Run: runRaceTwoSets, Race: true, Procs: 4, Workers: 6},
			{Name: "separate", Quick: 200, Thorough: 6000, Run: runRaceSeparate, Race: true, Procs: 4, Workers: 6},
			{Name: "long", Quick: 11 * 40, Thorough: 11 * 1500, Run: runRaceOwners, Race: true, Procs: 4, Workers: 6},
		},
		Require: append(append(pairs, use...), "pairs of sets combined", "separate instances"),
		Assume:  []string{"iterators are used by one goroutine at a time, as documented; the race detector sees the accesses of the executions it observes"}})
	register(&Prop{ID: "C27",
		Rule: "2-4 workers with up to 4 (5) operations each on one goroutine-safe container with few keys (in one of thirty histories one that holds up to 140 others), from 17 containers and constructors; suite controlled: one worker runs at a time, preempted at lock operations, comparator, visitor and container callbacks and between operations, by uniform, sticky and priority-based schedules; suite threads: on 4 processors with delays in callbacks; then the final contents are read; a search for an order of the operations that respects their real-time order and the sequential model decides; suite sets: two or three sets, each changed by one goroutine, are combined by others under the same schedules or on threads: each result must be of a state each operand had during the call, of one state for a set with itself; suite owners: two to four goroutines, of up to 1500 operations each, on one map, multimap, set, multiset, hash trie, skip list, filter or ring with a part of the keys, values or nodes for each: all results, listings filtered to its own, and the contents at the end are what the owners know; on queues, stacks and priority queues all elements are unique, and the times of their pushes, pops and looks must allow the order they were taken in, each once; non-trivial when two operations overlapped; distinct by program and schedule",
		Suites: []Suite{
			{Name: "controlled", Quick: 480000, Thorough: 2000000, Run: runLinControlled},
			{Name: "threads", Quick: 100000, Thorough: 600000, Run: runLinThreads, Procs: 4, Workers: 4},
			{Name: "sets", Quick: 60000, Thorough: 600000, Run: runLinSets, Procs: 4, Workers: 4},
			{Name: "owners", Quick: 11 * 900, Thorough: 11 * 20000, Run: runOwners, Procs: 4, Workers: 4},
		},
		Require: append([]string{"overlapping pairs of operations", "operations in histories", "histories on containers that hold many elements", "sets combined while they changed", "a set combined with itself while it changed", "overlapping pushes of unique elements", "elements that were put in and taken out", "reads of keys of others", "turns of owners"}, append(long, hist...)...),
		Assume:  []string{"set algebra reads two sets at two moments of the call, as each has its own lock; a set combined with itself is read at one"}})
	register(&Prop{ID: "C28",
		Rule: "suite schedules: workers on one container, or combining sets with each other in both directions and with themselves while they change, under the controlled scheduler with callbacks that may panic; a state in which no worker can go on is a deadlock; afterwards no lock may be held and every operation must be callable; suite panics: an operation panics on an empty container, or a callback panics or ends the goroutine, then every operation is called, on the container's own lock or on a monitored one; suite after: a comparator or visitor panics at its n-th call in an operation of a map, multimap, set, multiset, skip list, priority queue or set algebra, then contents in both directions, sizes and lookups are compared with what was held before; non-trivial when workers were interleaved or an operation panicked",
		Suites: []Suite{
			{Name: "schedules", Quick: 480000, Thorough: 2000000, Run: runLocks},
			{Name: "panics", Quick: 160000, Thorough: 500000, Run: runPanics},
			{Name: "after", Quick: 200000, Thorough: 2000000, Run: runAfter},
		},
		Require: append([]string{"operations that panicked", "operations ended by Goexit in a callback", "operations of which the contents were judged after a panic"}, hist...)})
}
