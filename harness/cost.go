package main

import (
	"fmt"
	"math/bits"
	"runtime"
	"strconv"

	algosort "github.com/liyue201/gostl/algorithm/sort"
	"github.com/liyue201/gostl/ds/bitmap"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/heap"
	"github.com/liyue201/gostl/ds/ketama"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/rbtree"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/ds/stack"
	"github.com/liyue201/gostl/ds/vector"
	"github.com/liyue201/gostl/utils/comparator"
)

// ---- C31 the cost of operations, in comparisons ----

// meter counts the calls of a comparator.
type meter struct {
	n   int
	cmp comparator.Comparator[E]
}

func (m *meter) compare(a, b E) int { m.n++; return m.cmp(a, b) }

// lg is about log2(n+2), never less than 1.
func lg(n int) int { return bits.Len(uint(n + 1)) }

// keysIn gives n keys in an order that is hard on unbalanced structures.
func keysIn(t *T, n int) (string, []int) {
	ks := make([]int, n)
	shape := t.Intn(7)
	for i := range ks {
		switch shape {
		case 0:
			ks[i] = i
		case 1:
			ks[i] = n - i
		case 2: // from both ends
			ks[i] = i / 2
			if i%2 == 1 {
				ks[i] = 2*n - i/2
			}
		case 3: // from the middle outwards
			ks[i] = n + (i/2)*(1-2*(i%2))
		case 4: // rising blocks
			ks[i] = (i%16)*n + i/16
		case 5:
			ks[i] = i * i % (n + 1)
		case 6:
			ks[i] = t.Intn(4 * n)
		}
	}
	return []string{"rising", "falling", "both ends", "from the middle", "blocks", "squares", "random"}[shape], ks
}

func costSize(t *T) int {
	switch t.Intn(4) {
	case 0:
		return 100 + t.Intn(200)
	case 1:
		return 2000 + t.Intn(2000)
	}
	return 500 + t.Intn(700)
}

func runOrdCost(t *T) {
	m := &meter{cmp: cmpK}
	kind := []int{kTree, kTreeNodes, kMap, kMultiMap, kSet, kMultiSet}[t.Case%6]
	c := makeOrdE(t, kind, m.compare)
	shape, ks := keysIn(t, costSize(t))
	multi := c.multi && t.Chance(3)
	if multi { // many equal keys: small groups, a few big ones, or one
		groups := []int{1, 2, 3, 1 + t.Intn(32), 1 + len(ks)/10}[t.Intn(5)]
		for i := range ks {
			ks[i] %= groups
		}
		shape += fmt.Sprintf(" with %d different keys", groups)
	}
	t.Op("container", c.name, shape, len(ks))
	size, worst := 0, 0
	equal := map[int]int{}
	limit := func(what string, n, extra int) {
		if b := 12*lg(n) + 24 + extra; m.n > b {
			t.Failf("%s: %s made %d comparisons with %d elements (keys %s), more than %d", c.name, what, m.n, n, shape, b)
		}
		worst = max(worst, m.n)
		t.Count("operations whose comparisons were counted")
	}
	probe := func(k int) {
		for i, f := range []func(E) ordIter{c.find, c.lower, c.upper} {
			m.n = 0
			f(E{k, 0})
			limit([]string{"Find", "LowerBound", "UpperBound"}[i], size, 0)
		}
		if c.contains != nil {
			m.n = 0
			c.contains(E{k, 0})
			limit("Contains", size, 0)
		}
		if c.get != nil {
			m.n = 0
			c.get(E{k, 0})
			limit("Get", size, 0)
		}
	}
	insert := func(i, k int) {
		m.n = 0
		c.insert(E{k, i}, i)
		limit("Insert", size, 0)
		size = c.size()
		if c.multi {
			equal[k]++
		} else {
			equal[k] = 1
		}
	}
	erase := func(k int) {
		if equal[k] == 0 && (kind == kTree || kind == kTreeNodes) {
			return
		}
		m.n = 0
		c.erase(E{k, 0})
		gone := equal[k]
		if c.eraseOne {
			gone = min(gone, 1)
		}
		// erasing all of g equal entries may cost g searches
		limit("Erase", size, gone*(12*lg(size)+24))
		equal[k] -= gone
		size = c.size()
	}
	for i, k := range ks {
		insert(i, k)
		if t.Chance(20) {
			probe(ks[t.Intn(i+1)] + t.Intn(3) - 1)
		}
	}
	// a history of both, then empty it from one end or at random
	order := t.R.Perm(len(ks))
	fromEnd := t.Chance(2)
	for i, j := range order {
		if fromEnd {
			j = i
		}
		if t.Chance(4) {
			insert(i, ks[t.Intn(len(ks))])
		}
		erase(ks[j])
		if t.Chance(20) {
			probe(ks[t.Intn(len(ks))])
		}
	}
	t.Count("cost of " + c.name)
	t.Nontrivial()
	t.State(mix(uint64(kind), uint64(worst)))
}

func runSetAlgebraCost(t *T) {
	m := &meter{cmp: cmpK}
	a, b := set.New[E](m.compare), set.New[E](m.compare)
	_, ka := keysIn(t, costSize(t))
	_, kb := keysIn(t, costSize(t))
	for _, k := range ka {
		a.Insert(E{k, 0})
	}
	for _, k := range kb {
		b.Insert(E{k, 1})
	}
	n := a.Size() + b.Size()
	for i, f := range []func(*set.Set[E]) *set.Set[E]{a.Intersect, a.Union, a.Diff} {
		m.n = 0
		f(b)
		what := []string{"Intersect", "Union", "Diff"}[i]
		t.Op(what, a.Size(), b.Size())
		if lim := n * (12*lg(n) + 24); m.n > lim {
			t.Failf("%s of sets of %d and %d made %d comparisons, more than %d", what, a.Size(), b.Size(), m.n, lim)
		}
		t.Count("operations whose comparisons were counted")
	}
	t.Nontrivial()
}

type countHeap struct {
	es          []int
	less, swaps int
}

func (h *countHeap) Len() int           { return len(h.es) }
func (h *countHeap) Less(i, j int) bool { h.less++; return h.es[i] < h.es[j] }
func (h *countHeap) Swap(i, j int)      { h.swaps++; h.es[i], h.es[j] = h.es[j], h.es[i] }
func (h *countHeap) Push(x int)         { h.es = append(h.es, x) }
func (h *countHeap) Pop() int {
	x := h.es[len(h.es)-1]
	h.es = h.es[:len(h.es)-1]
	return x
}

func runHeapCost(t *T) {
	shape, ks := keysIn(t, costSize(t))
	n := len(ks)
	t.Op("keys", shape, n)
	h := &countHeap{}
	lim := func(what string, size int) {
		if b := 6*lg(size) + 12; h.less > b || h.swaps > b {
			t.Failf("heap: %s made %d comparisons and %d swaps with %d elements (keys %s), more than %d", what, h.less, h.swaps, size, shape, b)
		}
		h.less, h.swaps = 0, 0
		t.Count("operations whose comparisons were counted")
	}
	if t.Chance(2) {
		h.es = append(h.es, ks...)
		heap.Init[int](h)
		if h.less > 8*n+16 || h.swaps > 8*n+16 {
			t.Failf("heap: Init of %d made %d comparisons and %d swaps", n, h.less, h.swaps)
		}
		h.less, h.swaps = 0, 0
		t.Count("operations whose comparisons were counted")
	} else {
		for _, k := range ks {
			heap.Push[int](h, k)
			lim("Push", len(h.es))
		}
	}
	for len(h.es) > 0 {
		p := t.Intn(len(h.es))
		switch t.Intn(4) {
		case 0:
			heap.Remove[int](h, p)
			lim("Remove", len(h.es)+1)
		case 1:
			h.es[p] = t.Intn(4*n) - n
			heap.Fix[int](h, p)
			lim("Fix", len(h.es))
		}
		if len(h.es) > 0 {
			heap.Pop[int](h)
			lim("Pop", len(h.es)+1)
		}
	}
	m := &meter{cmp: cmpK}
	q := priorityqueue.New[E](m.compare)
	op := func(what string, f func()) {
		m.n = 0
		size := q.Size()
		f()
		if b := 12*lg(size) + 24; m.n > b {
			t.Failf("priority queue: %s made %d comparisons with %d elements (keys %s), more than %d", what, m.n, size, shape, b)
		}
		t.Count("operations whose comparisons were counted")
	}
	same := t.Chance(4)
	for i, k := range ks {
		if same {
			k = 0
		}
		op("Push", func() { q.Push(E{k, i}) })
		if t.Chance(4) {
			op("Pop", func() { q.Pop() })
		}
	}
	for !q.Empty() {
		op("Top", func() { q.Top() })
		op("Pop", func() { q.Pop() })
	}
	t.Nontrivial()
}

func runAlgoCost(t *T) {
	shape, ks := keysIn(t, costSize(t))
	n := len(ks)
	m := &meter{cmp: cmpK}
	es := make([]E, n)
	for i := range es {
		es[i] = E{ks[i], i}
	}
	t.Op("keys", shape, n)
	nlg := n * lg(n)
	limit := func(what string, b int) {
		if m.n > b {
			t.Failf("%s of %d elements (%s) made %d comparisons, more than %d", what, n, shape, m.n, b)
		}
		m.n = 0
		t.Count("operations whose comparisons were counted")
	}
	w := slice.NewSliceWrapper(append([]E(nil), es...))
	algosort.Stable[E](w.Begin(), w.End(), m.compare)
	limit("Stable", 3*nlg+64)
	// what follows is about distinct keys in random, rising or falling order
	for i, j := range t.R.Perm(n) {
		es[i] = E{j, i}
	}
	shape = "a random permutation"
	switch t.Intn(4) {
	case 0:
		refStable(es, cmpK)
		shape = "rising"
	case 1:
		refStable(es, func(a, b E) int { return -cmpK(a, b) })
		shape = "falling"
	}
	w = slice.NewSliceWrapper(append([]E(nil), es...))
	algosort.Sort[E](w.Begin(), w.End(), m.compare)
	limit("Sort", 8*nlg+256)
	for i := 0; i < 20; i++ {
		k := E{t.Intn(n+2) - 1, 0}
		algosort.LowerBound[E](w.Begin(), w.End(), k, m.compare)
		limit("LowerBound", 3*lg(n)+8)
		algosort.UpperBound[E](w.Begin(), w.End(), k, m.compare)
		limit("UpperBound", 3*lg(n)+8)
		algosort.BinarySearch[E](w.Begin(), w.End(), k, m.compare)
		limit("BinarySearch", 3*lg(n)+8)
	}
	w = slice.NewSliceWrapper(append([]E(nil), es...))
	algosort.NthElement[E](w.Begin(), w.End(), t.Intn(n), m.compare)
	limit("NthElement", 8*nlg+256)
	algosort.NextPermutation[E](w.Begin(), w.End(), m.compare)
	limit("NextPermutation", 4*n+16)
	t.Nontrivial()
}

func runSkipCost(t *T) {
	m := &meter{cmp: cmpK}
	sl := skiplist.New[E, int](m.compare)
	n := 1000 + t.Intn(1500)
	shape, ks := keysIn(t, n)
	for i, k := range ks {
		sl.Insert(E{k, i}, i)
	}
	n = sl.Len()
	total := map[string]int{}
	const each = 300
	for i := 0; i < each; i++ {
		k := E{ks[t.Intn(len(ks))] + t.Intn(2), 0}
		m.n = 0
		sl.Get(k)
		total["Get"] += m.n
		m.n = 0
		sl.Remove(k)
		total["Remove"] += m.n
		m.n = 0
		sl.Insert(k, i)
		total["Insert"] += m.n
	}
	for _, what := range []string{"Get", "Remove", "Insert"} {
		if b := 16*lg(n) + 60; total[what] > b*each {
			t.Failf("skiplist: %s made %d comparisons on average with %d keys (%s), more than %d", what, total[what]/each, n, shape, b)
		}
		t.CountN("operations whose comparisons were counted", each)
	}
	t.Op("skiplist", shape, n)
	t.Count("skiplists measured")
	t.Nontrivial()
}

// ---- C32 memory after churn ----

// A churner keeps few elements alive while many pass through.
type churner struct {
	name string
	mk   func(t *T) (step func(i int), done any)
}

// wide makes leaks visible: every element is 64 bytes.
type wide [8]uint64

// liveOf draws how many elements are held.
func liveOf(t *T) int {
	n := 8 + t.Intn(300)
	t.Op("held", n)
	return n
}

func churners() []churner {
	var cs []churner
	add := func(name string, mk func(t *T) (func(int), any)) { cs = append(cs, churner{name, mk}) }
	add("vector", func(t *T) (func(int), any) {
		live := liveOf(t)
		v := vector.New[wide]()
		return func(i int) {
			v.PushBack(wide{uint64(i)})
			if v.Size() > live {
				switch i % 4 {
				case 0:
					v.PopBack()
				case 1:
					v.EraseAt(0)
				case 2:
					v.EraseIndexRange(live/2, live/2+1)
				case 3:
					v.Erase(v.IterAt(live / 3))
				}
			}
		}, v
	})
	add("deque as a queue", func(t *T) (func(int), any) {
		live := liveOf(t)
		d := deque.New[wide]()
		return func(i int) {
			d.PushBack(wide{uint64(i)})
			if d.Size() > live {
				d.PopFront()
			}
		}, d
	})
	add("deque backwards", func(t *T) (func(int), any) {
		live := liveOf(t)
		d := deque.New[wide]()
		return func(i int) {
			d.PushFront(wide{uint64(i)})
			if d.Size() > live {
				d.PopBack()
			}
		}, d
	})
	add("deque in waves", func(t *T) (func(int), any) {
		wave := 200 + t.Intn(1300)
		d := deque.New[wide]()
		return func(i int) {
			switch i / wave % 4 {
			case 0:
				d.PushBack(wide{})
			case 2:
				d.PushFront(wide{})
			case 1:
				if !d.Empty() {
					d.PopFront()
				}
			case 3:
				if i%wave == wave/2 {
					d.Clear()
				} else if !d.Empty() {
					d.PopBack()
				}
			}
		}, d
	})
	add("deque in the middle", func(t *T) (func(int), any) {
		d := deque.New[wide]()
		return func(i int) {
			d.Insert(d.Size()*(i%5)/4, wide{uint64(i)})
			if d.Size() > 200 {
				if i%2 == 0 {
					d.EraseRange(10, 60)
				} else {
					d.EraseAt(i % 200)
				}
			}
		}, d
	})
	add("bidlist", func(t *T) (func(int), any) {
		live := liveOf(t)
		l := bidlist.New[wide]()
		return func(i int) {
			switch i % 3 {
			case 0:
				l.PushBack(wide{uint64(i)})
			case 1:
				l.PushFront(wide{uint64(i)})
			case 2:
				if l.Len() > 1 {
					l.InsertAfter(wide{}, l.FrontNode())
				}
			}
			if l.Len() > live {
				switch i % 4 {
				case 0:
					l.PopFront()
				case 1:
					l.PopBack()
				case 2:
					l.Remove(l.FrontNode().Next())
				case 3:
					if i%1000 == 3 {
						l.Clear()
					} else {
						l.MoveToBack(l.FrontNode())
						l.PopBack()
					}
				}
			}
		}, l
	})
	add("simplelist", func(t *T) (func(int), any) {
		live := liveOf(t)
		l := simplelist.New[wide]()
		return func(i int) {
			if i%2 == 0 {
				l.PushBack(wide{uint64(i)})
			} else {
				l.PushFront(wide{uint64(i)})
			}
			if l.Len() > live {
				if i%3 == 0 {
					l.Remove(nil, l.FrontNode())
				} else {
					l.Remove(l.FrontNode(), l.FrontNode().Next())
				}
			}
		}, l
	})
	for _, k := range []string{"deque", "list"} {
		add("queue on a "+k, func(t *T) (func(int), any) {
			live := liveOf(t)
			var o []queue.Option[wide]
			if k == "list" {
				o = append(o, queue.WithListContainer[wide]())
			}
			q := queue.New[wide](o...)
			return func(i int) {
				q.Push(wide{uint64(i)})
				if q.Size() > live {
					q.Pop()
				}
				if i%5000 == 0 {
					q.Clear()
				}
			}, q
		})
		add("stack on a "+k, func(t *T) (func(int), any) {
			live := liveOf(t)
			var o []stack.Option[wide]
			if k == "list" {
				o = append(o, stack.WithListContainer[wide]())
			}
			q := stack.New[wide](o...)
			return func(i int) {
				q.Push(wide{uint64(i)})
				if q.Size() > live {
					for !q.Empty() {
						q.Pop()
					}
				}
				if i%5000 == 0 {
					q.Clear()
				}
			}, q
		})
	}
	add("priority queue", func(t *T) (func(int), any) {
		live := liveOf(t)
		q := priorityqueue.New[wide](func(a, b wide) int { return refOrd(a[0], b[0]) })
		return func(i int) {
			q.Push(wide{uint64(i*7919) % 1000})
			if q.Size() > live {
				q.Pop()
			}
			if i%5000 == 0 {
				q.Clear()
			}
		}, q
	})
	cmpInt := refOrd[int]
	add("rbtree", func(t *T) (func(int), any) {
		live := liveOf(t)
		tr := rbtree.New[int, wide](cmpInt)
		return func(i int) {
			tr.Insert(i*7919%100003, wide{uint64(i)})
			if tr.Size() > live {
				switch i % 3 {
				case 0:
					tr.Delete(tr.First())
				case 1:
					tr.Delete(tr.Last())
				case 2:
					tr.Delete(tr.FindLowerBoundNode(tr.First().Next().Key()))
				}
			}
			if i%5000 == 0 {
				tr.Clear()
			}
		}, tr
	})
	add("map", func(t *T) (func(int), any) {
		live := liveOf(t)
		m := treemap.New[int, wide](cmpInt)
		return func(i int) {
			m.Insert(i, wide{})
			m.Insert(i, wide{uint64(i)})
			if i%2 == 0 {
				m.Erase(i - live)
			} else {
				m.EraseIter(m.Find(i - live))
			}
			if i%5000 == 0 {
				m.Clear()
			}
		}, m
	})
	add("multimap", func(t *T) (func(int), any) {
		live := liveOf(t)
		m := treemap.NewMultiMap[int, wide](cmpInt)
		return func(i int) {
			m.Insert(i/3, wide{uint64(i)})
			m.Erase(i/3 - live)
			if i%5000 == 0 {
				m.Clear()
			}
		}, m
	})
	add("set", func(t *T) (func(int), any) {
		live := liveOf(t)
		s := set.New[wide](func(a, b wide) int { return refOrd(a[0], b[0]) })
		o := set.New[wide](func(a, b wide) int { return refOrd(a[0], b[0]) })
		o.Insert(wide{1})
		return func(i int) {
			s.Insert(wide{uint64(i)})
			s.Erase(wide{uint64(i - live)})
			if i%5000 == 0 {
				s.Clear()
			}
			if i%100 == 0 {
				s.Union(o)
				s.Intersect(o)
				s.Diff(o)
			}
		}, s
	})
	add("multiset", func(t *T) (func(int), any) {
		live := liveOf(t)
		s := set.NewMultiSet[wide](func(a, b wide) int { return refOrd(a[0], b[0]) })
		return func(i int) {
			s.Insert(wide{uint64(i / 2)})
			if i/2%2 == 0 {
				s.Erase(wide{uint64(i/2 - live)})
			} else {
				s.EraseAll(wide{uint64(i/2 - live)})
			}
			if i%5000 == 0 {
				s.Clear()
			}
		}, s
	})
	add("skiplist", func(t *T) (func(int), any) {
		live := liveOf(t)
		s := skiplist.New[int, wide](cmpInt)
		return func(i int) {
			s.Insert(i, wide{})
			s.Insert(i, wide{uint64(i)})
			s.Remove(i - live)
		}, s
	})
	add("hamt", func(t *T) (func(int), any) {
		live := liveOf(t)
		h := hamt.New[wide]()
		key := func(i int) hamt.Key { return hamt.Key(strconv.Itoa(i)) }
		return func(i int) {
			h.Insert(key(i), wide{})
			h.Insert(key(i), wide{uint64(i)})
			h.Erase(key(i - live))
		}, h
	})
	add("ketama", func(t *T) (func(int), any) {
		k := ketama.New(ketama.WithReplicas(4))
		name := func(i int) string { return fmt.Sprintf("node number %d of the ring", i) }
		return func(i int) {
			if i%10 != 0 {
				k.Get(strconv.Itoa(i))
				return
			}
			k.Add(name(i))
			k.Add(name(i))
			k.Remove(name(i - 30))
		}, k
	})
	add("bitmap", func(t *T) (func(int), any) {
		b := bitmap.New(1 << 10)
		return func(i int) {
			b.Set(uint64(i % (1 << 10)))
			if i%100 == 0 {
				b.Resize(uint64(1<<10 + i%7*100))
			}
			if i%1000 == 0 {
				b.Clear()
			}
		}, b
	})
	return cs
}

var allChurners = churners()

func heapNow() int64 {
	var ms runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&ms)
	return int64(ms.HeapAlloc)
}

// runMemory compares the live heap after a warm-up with that after ten times as
// much churn of the same kind.
func runMemory(t *T) {
	c := allChurners[t.Case%len(allChurners)]
	n := 6000 + t.Intn(4)*1000
	if c.name == "ketama" {
		n /= 2
	}
	step, keep := c.mk(t)
	i := 1
	run := func(k int) {
		for end := i + k; i < end; i++ {
			step(i)
			if i%256 == 0 {
				t.Tick()
			}
		}
	}
	run(n)
	before := heapNow()
	run(10 * n)
	after := heapNow()
	runtime.KeepAlive(keep)
	t.Op(c.name, n)
	t.CountN("elements that passed through", 11*n)
	t.Count("heaps compared")
	t.Nontrivial()
	// 16 bytes lost once in ten steps are 16 n bytes
	if grown := after - before; grown > int64(16*n) {
		t.Failf("%s: the live heap grew by %d bytes while %d elements passed through a container of bounded size", c.name, grown, 10*n)
	}
}

func init() {
	register(&Prop{ID: "C31",
		Rule: "containers and ranges of 100-4000 elements whose keys come in rising, falling, alternating, blocked, quadratic or random order, with and without equal keys, filled, probed, emptied; the calls of the comparator (for a heap also of Swap) are counted for each operation and compared with a logarithmic bound several times what a balanced structure needs; Sort and NthElement on random permutations, rising and falling; the skiplist on average over 300 operations",
		Assume: []string{
			"quicksort's quadratic cases (all elements equal, adversarial orders) are allowed: the library promises no worst case for Sort and NthElement",
			"the skiplist's levels come from a clock-seeded generator, so its bound is on an average, 16*log2(n)+60 with n of 1000 or more",
		},
		Suites: []Suite{
			{Name: "ordered", Quick: 7200, Thorough: 12000, Run: runOrdCost},
			{Name: "algebra", Quick: 2400, Thorough: 2000, Run: runSetAlgebraCost},
			{Name: "heap", Quick: 3600, Thorough: 6000, Run: runHeapCost},
			{Name: "algorithms", Quick: 9000, Thorough: 15000, Run: runAlgoCost},
			{Name: "skiplist", Quick: 2400, Thorough: 4000, Run: runSkipCost},
		}, Require: []string{"operations whose comparisons were counted", "cost of rbtree", "cost of multiset", "skiplists measured"}})
	register(&Prop{ID: "C32",
		Rule: "20 containers through which 66000-99000 distinct 64-byte elements (ketama: nodes) pass while at most some hundreds are held; the live heap after garbage collection is compared between the end of the first eleventh and the end; non-trivial always",
		Assume: []string{
			"a leak of less than 1.6 bytes per element is not seen",
		},
		Suites: []Suite{
			{Name: "churn", Quick: 1200, Thorough: 4000, Run: runMemory},
		}, Require: []string{"heaps compared", "elements that passed through"}})
}
