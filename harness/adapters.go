package main

import (
	"fmt"

	"github.com/liyue201/gostl/ds/container"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/stack"
)

// ---- C12 Queue and Stack ----

// boxCont is a container of the harness's own for the adapters.
type boxCont struct {
	s    []int
	hook func(op string) // called inside every operation
}

func (b *boxCont) in(op string) {
	if b.hook != nil {
		b.hook(op)
	}
}
func (b *boxCont) PushBack(v int)  { b.in("PushBack"); b.s = append(b.s, v) }
func (b *boxCont) PushFront(v int) { b.in("PushFront"); b.s = insertAt(b.s, 0, v) }
func (b *boxCont) Front() int      { b.in("Front"); return b.s[0] }
func (b *boxCont) Back() int       { b.in("Back"); return b.s[len(b.s)-1] }
func (b *boxCont) PopFront() int {
	b.in("PopFront")
	v := b.s[0]
	b.s = b.s[1:]
	return v
}
func (b *boxCont) PopBack() int {
	b.in("PopBack")
	v := b.s[len(b.s)-1]
	b.s = b.s[:len(b.s)-1]
	return v
}
func (b *boxCont) Empty() bool    { b.in("Empty"); return len(b.s) == 0 }
func (b *boxCont) Size() int      { b.in("Size"); return len(b.s) }
func (b *boxCont) String() string { b.in("String"); return fmt.Sprint(b.s) }
func (b *boxCont) Clear()         { b.in("Clear"); b.s = nil }

// adapterCont builds the container named by kind, holding pre already.
func adapterCont(kind int, pre []int) (container.Container[int], string) {
	var c container.Container[int]
	name := ""
	switch kind {
	case 0:
		c, name = deque.New[int](), "deque given"
	case 1:
		c, name = bidlist.New[int](), "bidlist given"
	default:
		c, name = &boxCont{}, "custom container"
	}
	for _, v := range pre {
		c.PushBack(v)
	}
	return c, name
}

func runQueue(t *T) {
	var m []int
	var opts []queue.Option[int]
	name := "default"
	kind := t.Intn(5)
	switch kind {
	case 3:
		name = "list option"
		opts = append(opts, queue.WithListContainer[int]())
	case 4:
	default:
		for i, n := 0, t.Intn(5); i < n; i++ {
			m = append(m, -1-i)
		}
		var c container.Container[int]
		c, name = adapterCont(kind, m)
		opts = append(opts, queue.WithContainer[int](c))
	}
	if safe := t.Intn(3); safe > 0 {
		name += ", goroutine-safe"
		if safe == 1 {
			opts = append(opts, queue.WithGoroutineSafe[int]())
		} else {
			opts = append([]queue.Option[int]{queue.WithGoroutineSafe[int]()}, opts...)
		}
	}
	q := queue.New[int](opts...)
	t.Op("New", name, len(m))
	t.Count("queues: " + name)
	next := 0
	big := t.Chance(4) && t.long == 0
	nst := t.steps(40 + t.Intn(120))
	for i := 0; t.more(i, nst); i++ {
		n := len(m)
		run := 1
		if big {
			run = 1 + t.Intn(100)
		}
		op := t.Intn(7)
		if t.long > 0 && n > 20 {
			op = 3 // pop
		}
		switch op {
		case 0, 1, 2:
			for ; run > 0; run-- {
				next++
				t.Op("Push", next)
				q.Push(next)
				m = append(m, next)
			}
		case 3, 4:
			for ; run > 0 && len(m) > 0; run-- {
				t.Op("Pop")
				if g := q.Pop(); g != m[0] {
					t.Failf("queue (%s): Pop() = %d, want %d", name, g, m[0])
				}
				m = m[1:]
				t.Count("elements popped")
				t.Nontrivial()
			}
		case 5:
			if n == 0 {
				t.Op("Pop empty")
				t.mustPanic("Pop on an empty queue", func() { q.Pop() })
				t.mustPanic("Front on an empty queue", func() { q.Front() })
				t.mustPanic("Back on an empty queue", func() { q.Back() })
			} else if n < 200 {
				if g, w := q.String(), fmt.Sprint(m); g != w {
					t.Failf("queue (%s): String() = %s, want %s", name, g, w)
				}
			}
		case 6:
			if t.Chance(10) {
				t.Op("Clear")
				q.Clear()
				m = nil
			}
		}
		n = len(m)
		if q.Size() != n || q.Empty() != (n == 0) {
			t.Failf("queue (%s): Size() = %d, Empty() = %v, want %d elements", name, q.Size(), q.Empty(), n)
		}
		if n > 0 && (q.Front() != m[0] || q.Back() != m[n-1]) {
			t.Failf("queue (%s): Front() = %d, Back() = %d, want %d, %d", name, q.Front(), q.Back(), m[0], m[n-1])
		}
	}
	for len(m) > 0 {
		if g := q.Pop(); g != m[0] {
			t.Failf("queue (%s): Pop() = %d, want %d", name, g, m[0])
		}
		m = m[1:]
	}
	if !q.Empty() {
		t.Failf("queue (%s): not empty after everything was popped", name)
	}
}

func runStack(t *T) {
	var m []int
	var opts []stack.Option[int]
	name := "default"
	kind := t.Intn(5)
	switch kind {
	case 3:
		name = "list option"
		opts = append(opts, stack.WithListContainer[int]())
	case 4:
	default:
		for i, n := 0, t.Intn(5); i < n; i++ {
			m = append(m, -1-i)
		}
		var c container.Container[int]
		c, name = adapterCont(kind, m)
		opts = append(opts, stack.WithContainer[int](c))
	}
	if safe := t.Intn(3); safe > 0 {
		name += ", goroutine-safe"
		if safe == 1 {
			opts = append(opts, stack.WithGoroutineSafe[int]())
		} else {
			opts = append([]stack.Option[int]{stack.WithGoroutineSafe[int]()}, opts...)
		}
	}
	s := stack.New[int](opts...)
	t.Op("New", name, len(m))
	t.Count("stacks: " + name)
	next := 0
	big := t.Chance(4) && t.long == 0
	nst := t.steps(40 + t.Intn(120))
	for i := 0; t.more(i, nst); i++ {
		n := len(m)
		run := 1
		if big {
			run = 1 + t.Intn(100)
		}
		op := t.Intn(7)
		if t.long > 0 && n > 20 {
			op = 3 // pop
		}
		switch op {
		case 0, 1, 2:
			for ; run > 0; run-- {
				next++
				t.Op("Push", next)
				s.Push(next)
				m = append(m, next)
			}
		case 3, 4:
			for ; run > 0 && len(m) > 0; run-- {
				t.Op("Pop")
				w := m[len(m)-1]
				if g := s.Pop(); g != w {
					t.Failf("stack (%s): Pop() = %d, want %d", name, g, w)
				}
				m = m[:len(m)-1]
				t.Count("elements popped")
				t.Nontrivial()
			}
		case 5:
			if n == 0 {
				t.Op("Pop empty")
				t.mustPanic("Pop on an empty stack", func() { s.Pop() })
				t.mustPanic("Top on an empty stack", func() { s.Top() })
			} else if n < 200 {
				if g, w := s.String(), fmt.Sprint(m); g != w {
					t.Failf("stack (%s): String() = %s, want %s", name, g, w)
				}
			}
		case 6:
			if t.Chance(10) {
				t.Op("Clear")
				s.Clear()
				m = nil
			}
		}
		n = len(m)
		if s.Size() != n || s.Empty() != (n == 0) {
			t.Failf("stack (%s): Size() = %d, Empty() = %v, want %d elements", name, s.Size(), s.Empty(), n)
		}
		if n > 0 && s.Top() != m[n-1] {
			t.Failf("stack (%s): Top() = %d, want %d", name, s.Top(), m[n-1])
		}
	}
	for len(m) > 0 {
		w := m[len(m)-1]
		if g := s.Pop(); g != w {
			t.Failf("stack (%s): Pop() = %d, want %d", name, g, w)
		}
		m = m[:len(m)-1]
	}
	if !s.Empty() {
		t.Failf("stack (%s): not empty after everything was popped", name)
	}
}

// ---- C13 PriorityQueue and heap ----

func runPQ(t *T) {
	cname, cmp := pickCmp(t)
	var opts []priorityqueue.Option
	if t.Chance(2) {
		opts = append(opts, priorityqueue.WithGoroutineSafe())
	}
	size := t.level(4, 20, 70, 300)
	var m []E // in order of arrival
	q := makePQ(t, cmp, opts, size < 200, func(e E) bool {
		for i := range m {
			if m[i] == e {
				return true
			}
		}
		return false
	})
	first := func() int {
		b := 0
		for i := range m {
			if cmp(m[i], m[b]) < 0 {
				b = i
			}
		}
		return b
	}
	id := 0
	keys := []int{1, 3, 10, 1000}[t.Intn(4)]
	t.Op("New", cname, keys)
	pop := func() {
		t.Op("Pop")
		b := first()
		g := q.Pop()
		if g != m[b] {
			t.Failf("Pop() = %v, want %v (order %s; queued in order of arrival: %s)", g, m[b], cname, showE(m))
		}
		for i := range m {
			if i != b && cmp(m[i], m[b]) == 0 {
				t.Count("pops that had to respect arrival order")
				break
			}
		}
		if len(m) > 2 {
			t.Nontrivial()
		}
		m = eraseRange(m, b, b+1)
		t.Count("elements popped")
	}
	for i, nst := 0, t.steps(30+t.Intn(4*size)); t.more(i, nst); i++ {
		switch op := t.Intn(10); {
		case op < 5 && len(m) < size || op < 3 && (t.long == 0 || len(m) < size+40):
			id++
			e := E{t.Intn(keys) - keys/3, id}
			t.Op("Push", e.K)
			q.Push(e)
			m = append(m, e)
		case op < 9:
			if len(m) > 0 {
				pop()
			} else {
				t.Op("Pop empty")
				t.mustPanic("Pop on an empty priority queue", func() { q.Pop() })
				t.mustPanic("Top on an empty priority queue", func() { q.Top() })
			}
		default:
			if t.Chance(15) {
				t.Op("Clear")
				q.Clear()
				m = m[:0]
				t.Count("clears")
			}
		}
		if q.Size() != len(m) || q.Empty() != (len(m) == 0) {
			t.Failf("Size() = %d, Empty() = %v, want %d elements", q.Size(), q.Empty(), len(m))
		}
		if len(m) > 0 {
			if g, w := q.Top(), m[first()]; g != w {
				t.Failf("Top() = %v, want %v (order %s)", g, w, cname)
			}
		}
	}
	for len(m) > 0 {
		pop()
	}
	if !q.Empty() {
		t.Failf("not empty after everything was popped")
	}
}

// monHeap is a heap.Interface that checks how the package uses it.
type monHeap struct {
	t  *T
	es []E
}

func (h *monHeap) Len() int { return len(h.es) }
func (h *monHeap) bound(i int, what string) {
	if i < 0 || i >= len(h.es) {
		h.t.Failf("heap called %s with index %d of %d", what, i, len(h.es))
	}
}
func (h *monHeap) Less(i, j int) bool {
	h.bound(i, "Less")
	h.bound(j, "Less")
	return h.es[i].K < h.es[j].K
}
func (h *monHeap) Swap(i, j int) {
	h.bound(i, "Swap")
	h.bound(j, "Swap")
	h.es[i], h.es[j] = h.es[j], h.es[i]
}
func (h *monHeap) Push(e E) { h.es = append(h.es, e) }
func (h *monHeap) Pop() E {
	e := h.es[len(h.es)-1]
	h.es = h.es[:len(h.es)-1]
	return e
}

func runHeap(t *T) {
	h := &monHeap{t: t, es: genElems(t, t.Intn(60))}
	hp := makeHeap(t, h, true)
	id := 1000
	keys := []int{2, 8, 100}[t.Intn(3)]
	m := append([]E(nil), h.es...)
	drop := func(e E) {
		for i := range m {
			if m[i] == e {
				m = eraseRange(m, i, i+1)
				return
			}
		}
		t.Failf("the heap returned %v, which it did not hold", e)
	}
	check := func(what string) {
		if !isPermutation(m, h.es) {
			t.Failf("after %s the heap holds %s, want a permutation of %s", what, showE(h.es), showE(m))
		}
		for i := 1; i < len(h.es); i++ {
			if h.es[i].K < h.es[(i-1)/2].K {
				t.Failf("after %s element %d (%v) is less than its parent (%v)", what, i, h.es[i], h.es[(i-1)/2])
			}
		}
		if len(h.es) > 3 {
			t.Nontrivial()
		}
	}
	t.Op("Init", showE(h.es))
	hp.init()
	check("Init")
	for i, nst := 0, t.steps(80); t.more(i, nst); i++ {
		n := len(h.es)
		op := t.Intn(4)
		if n == 0 {
			op = 0
		} else if t.long > 0 && n > 60 {
			op = 1
		}
		switch op {
		case 0:
			id++
			e := E{t.Intn(keys), id}
			t.Op("Push", e.K)
			hp.push(e)
			m = append(m, e)
			check("Push")
		case 1:
			t.Op("Pop")
			lo := m[0].K
			for _, e := range m {
				lo = min(lo, e.K)
			}
			e := hp.pop()
			if e.K != lo {
				t.Failf("Pop returned %v, the least key is %d", e, lo)
			}
			drop(e)
			check("Pop")
		case 2:
			p := t.Intn(n)
			if t.Chance(3) {
				p = []int{0, n - 1, n / 2}[t.Intn(3)]
			}
			want := h.es[p]
			t.Op("Remove", p)
			e := hp.remove(p)
			if e != want {
				t.Failf("Remove(%d) returned %v, want %v", p, e, want)
			}
			drop(e)
			check("Remove")
			t.Count("removals by index")
		case 3:
			p := t.Intn(n)
			id++
			drop(h.es[p])
			h.es[p] = E{t.Intn(keys*2) - keys/2, id}
			m = append(m, h.es[p])
			t.Op("Fix", p, h.es[p].K)
			hp.fix(p)
			check("Fix")
			t.Count("fixes")
		}
		if t.Chance(40) {
			h.es = genElems(t, t.Intn(60))
			m = append([]E(nil), h.es...)
			t.Op("Init", showE(h.es))
			hp.init()
			check("Init")
		}
	}
}

// runBigHeap drives the heap functions on heaps of up to 6000 elements: the
// elements' serial numbers are tracked in a table, the heap order is checked
// in full every few operations.
func runBigHeap(t *T) {
	size := 40 + t.Intn([]int{100, 700, 2000, 6000}[t.Intn(4)])
	every := 6
	if t.Chance(60) {
		size, every = 65400+t.Intn(300), 100
	}
	keys := []int{2, 40, 100000}[t.Intn(3)]
	h := &monHeap{t: t}
	hp := makeHeap(t, h, false)
	in := map[int]int{} // serial -> key
	lo := func() int {
		m := h.es[0].K
		for _, e := range h.es {
			m = min(m, e.K)
		}
		return m
	}
	id := 0
	mk := func(k int) E {
		id++
		in[id] = k
		return E{k, id}
	}
	check := func(what string) {
		if len(h.es) != len(in) {
			t.Failf("after %s the heap holds %d elements, want %d", what, len(h.es), len(in))
		}
		seen := map[int]bool{}
		for i, e := range h.es {
			if k, ok := in[e.ID]; !ok || k != e.K || seen[e.ID] {
				t.Failf("after %s the heap of %d holds %v, which it should not", what, len(h.es), e)
			}
			seen[e.ID] = true
			if i > 0 && e.K < h.es[(i-1)/2].K {
				t.Failf("after %s element %d of %d (%v) is less than its parent (%v)", what, i, len(h.es), e, h.es[(i-1)/2])
			}
		}
		t.Count("full comparisons")
	}
	drop := func(e E, what string) {
		if k, ok := in[e.ID]; !ok || k != e.K {
			t.Failf("%s returned %v, which the heap did not hold", what, e)
		}
		delete(in, e.ID)
	}
	for i := 0; i < size; i++ {
		k := t.Intn(keys)
		if t.Chance(4) {
			k = i
		}
		h.es = append(h.es, mk(k))
	}
	t.Op("Init", size, keys)
	hp.init()
	check("Init")
	steps := 150 + t.Intn(250)
	trend := 0
	for i := 0; i < steps; i++ {
		if i%40 == 0 {
			trend = t.Intn(3)
		}
		n := len(h.es)
		op := t.Intn(5)
		if op == 4 {
			op = trend
		}
		if n == 0 {
			op = 0
		}
		what := ""
		switch op {
		case 0:
			what = "Push"
			k := t.Intn(keys)
			t.Op("Push", k)
			hp.push(mk(k))
		case 1:
			what = "Pop"
			t.Op("Pop")
			want := lo()
			e := hp.pop()
			if e.K != want {
				t.Failf("Pop of %d elements returned %v, the least key is %d", n, e, want)
			}
			drop(e, what)
		case 2:
			what = "Remove"
			p := t.Intn(n)
			if t.Chance(4) {
				p = []int{0, n - 1, n / 2, (n - 1) / 2}[t.Intn(4)]
			}
			want := h.es[p]
			t.Op("Remove", p)
			e := hp.remove(p)
			if e != want {
				t.Failf("Remove(%d) of %d elements returned %v, want %v", p, n, e, want)
			}
			drop(e, what)
			t.Count("removals by index")
		case 3:
			what = "Fix"
			p := t.Intn(n)
			if t.Chance(4) {
				p = []int{0, n - 1, n / 2, (n - 1) / 2}[t.Intn(4)]
			}
			drop(h.es[p], what)
			h.es[p] = mk(t.Intn(keys*2) - keys/2)
			t.Op("Fix", p, h.es[p].K)
			hp.fix(p)
			t.Count("fixes")
		}
		if i%every == 0 || n < 300 || n&(n-1) == 0 || (n+1)&n == 0 {
			check(what)
		}
	}
	check("the last operation")
	t.State(mix(uint64(len(h.es)), uint64(keys)))
	if size > 300 {
		t.Nontrivial()
	}
}

func init() {
	register(&Prop{ID: "C12",
		Rule: "random histories of 40-160 steps on a queue or stack over the default container, WithListContainer, a given deque or bidlist or a container of the harness, already holding up to 4 elements, goroutine-safe or not with the options in both orders; compared with a slice after each step; non-trivial when elements were popped",
		Suites: []Suite{
			{Name: "queue", Quick: 100000, Thorough: 400000, Run: runQueue},
			{Name: "stack", Quick: 100000, Thorough: 400000, Run: runStack},
		}, Require: []string{"elements popped", "queues: list option", "queues: default", "stacks: custom container, goroutine-safe", "stacks: default"}})
	register(&Prop{ID: "C13",
		Rule: "random histories on a priority queue of up to 4-300 elements with few or many distinct priorities under 5 kinds of order, every Pop and Top compared with the first least element in order of arrival, then drained; suite heap: Init, Push, Pop, Remove and Fix on an Interface that checks indices, the heap order and conservation after each call; suite large heap: the same on up to 65700 elements, checked in full every few calls; non-trivial with three or more elements",
		Suites: []Suite{
			{Name: "queue", Quick: 96000, Thorough: 500000, Run: runPQ},
			{Name: "heap", Quick: 160000, Thorough: 1000000, Run: runHeap},
			{Name: "large heap", Quick: 1500, Thorough: 40000, Run: runBigHeap},
		}, Require: []string{"elements popped", "pops that had to respect arrival order", "clears", "removals by index", "fixes"}})
}
