package main

import (
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
)

// C28, suite after: what a goroutine-safe container holds after a caller's
// comparator or visitor panicked in the middle of an operation. The entries of
// other keys are as they were; those of the operation's own key are some of the
// ones before and the one it was to bring; reads and the operands of set
// algebra change nothing; a priority queue loses and repeats nothing. Sizes and
// lookups agree with that, and the container goes on from there.

// fuse counts the calls of callbacks down to one that panics.
type fuse struct {
	left  int // < 0: never
	blown bool
}

func (f *fuse) tick() {
	if f.left == 0 {
		f.left, f.blown = -1, true
		panic(userPanic{})
	}
	if f.left > 0 {
		f.left--
	}
}

// guard runs an operation and says whether a callback panicked in it.
func (f *fuse) guard(op func()) (panicked bool) {
	defer func() {
		f.left = -1
		if r := recover(); r != nil {
			if _, ok := r.(userPanic); !ok {
				panic(r)
			}
			panicked = true
		}
	}()
	f.blown = false
	op()
	return f.blown // also if the library recovered it
}

type kvE struct {
	k E
	v int
}

func runAfter(t *T) {
	t.safe = true
	switch k := t.Case % 8; k {
	case 0, 1, 2, 3:
		runAfterOrd(t, []int{kMap, kMultiMap, kSet, kMultiSet}[k])
	case 4, 5:
		runAfterSkip(t)
	case 6:
		runAfterPQ(t)
	case 7:
		runAfterAlgebra(t)
	}
}

// afterKeys gives small ranges of keys, so that runs of equal ones come up.
func afterKey(t *T, keys int, id *int) E {
	*id++
	return E{t.Intn(keys), *id}
}

func armFuse(t *T, f *fuse) {
	f.left = -1
	if t.Chance(2) {
		f.left = t.Intn([]int{3, 8, 14}[t.Intn(3)])
	}
}

// afterPanic judges what an operation on key k that panicked left behind; more
// is what it was to bring, nil if it only reads.
func afterPanic(t *T, what string, cmp cmpE, before, got []kvE, k E, reads bool, more []kvE) {
	for i := 1; i < len(got); i++ {
		if cmp(got[i-1].k, got[i].k) > 0 {
			t.Failf("after a panic in %s: the entries are out of order: %v", what, got)
		}
	}
	var rest, own, gotRest, gotOwn []kvE
	split := func(es []kvE) (rest, own []kvE) {
		for _, e := range es {
			if !reads && cmp(e.k, k) == 0 {
				own = append(own, e)
			} else {
				rest = append(rest, e)
			}
		}
		return
	}
	rest, own = split(before)
	gotRest, gotOwn = split(got)
	if len(rest) != len(gotRest) {
		t.Failf("after a panic in %s: %d entries of other keys, %d before: %v, before %v", what, len(gotRest), len(rest), got, before)
	}
	for i := range rest {
		if rest[i] != gotRest[i] {
			t.Failf("after a panic in %s: an entry of another key is %v, was %v", what, gotRest[i], rest[i])
		}
	}
	may := append(append([]kvE(nil), own...), more...)
next:
	for _, e := range gotOwn {
		for j := range may {
			if may[j] == e {
				may = append(may[:j:j], may[j+1:]...)
				continue next
			}
		}
		t.Failf("after a panic in %s: an entry %v that was never there, or twice: %v, before %v", what, e, got, before)
	}
}

func runAfterOrd(t *T, kind int) {
	cname, cmp := pickCmp(t)
	f := &fuse{left: -1}
	c := makeOrdE(t, kind, func(a, b E) int { f.tick(); return cmp(a, b) })
	t.Op("after", c.name, cname)
	list := func() (out []kvE) {
		c.traverse(func(k E, v int) bool { out = append(out, kvE{k, v}); return true })
		return
	}
	keys := []int{2, 6, 30, 200}[t.Intn(4)]
	id := 0
	var m []kvE
	for i, n := 0, t.Intn([]int{3, 12, 40, 150}[t.Intn(4)]+1); i < n; i++ {
		id++
		c.insert(E{t.Intn(keys), id}, id)
	}
	m = list()
	for i, n := 0, 4+t.Intn(20); i < n; i++ {
		k := afterKey(t, keys, &id)
		if len(m) > 0 && t.Chance(3) {
			k.K = m[t.Intn(len(m))].k.K
		}
		armFuse(t, f)
		var op func()
		var name string
		reads := false
		var more []kvE
		switch w := t.Intn(12); {
		case w < 5:
			v := id
			if !c.hasVal {
				v = 0
			}
			name, op = "Insert", func() { c.insert(k, v) }
			more = []kvE{{k, v}}
			for _, e := range m { // a map may keep the old key with the new value
				if kind == kMap && cmp(e.k, k) == 0 {
					more = append(more, kvE{e.k, v})
				}
			}
		case w < 8:
			name, op = "Erase", func() { c.erase(k) }
			if c.eraseAll != nil && t.Chance(2) {
				name, op = "EraseAll", func() { c.eraseAll(k) }
			}
		case w == 8:
			name, op, reads = "Find", func() { c.find(k) }, true
		case w == 9:
			name, op, reads = "LowerBound and UpperBound", func() { c.lower(k); c.upper(k) }, true
		case w == 10:
			name, op, reads = "Contains", func() { c.contains(k) }, true
			if c.count != nil && t.Chance(2) {
				name, op = "Count", func() { c.count(k) }
			}
			if c.get != nil && t.Chance(2) {
				name, op = "Get", func() { c.get(k) }
			}
		default:
			name, op, reads = "Traversal", func() { c.traverse(func(E, int) bool { f.tick(); return true }) }, true
		}
		t.Op(name, k.K, k.ID, f.left)
		before := m
		if !f.guard(op) {
			m = list()
			continue // what it does without a panic is judged elsewhere
		}
		t.Count("operations of which the contents were judged after a panic")
		t.Count("panics in " + name + " of a " + c.name)
		t.Nontrivial()
		m = list()
		afterPanic(t, name+" of a "+c.name, cmp, before, m, k, reads, more)
		if c.size() != len(m) {
			t.Failf("after a panic in %s of a %s: Size() = %d, it lists %d entries", name, c.name, c.size(), len(m))
		}
		j := len(m)
		for it := c.last(); it.valid(); it.prev() {
			if j--; j < 0 || it.key() != m[j].k {
				t.Failf("after a panic in %s of a %s: walking backwards meets %v at %d", name, c.name, it.key(), j)
			}
		}
		if j != 0 {
			t.Failf("after a panic in %s of a %s: walking backwards misses %d entries", name, c.name, j)
		}
		for _, x := range []E{k, {t.Intn(keys), -1}} {
			held := false
			for _, e := range m {
				held = held || cmp(e.k, x) == 0
			}
			if c.contains(x) != held || c.find(x).valid() != held {
				t.Failf("after a panic in %s of a %s: Contains(%v) = %v, Find is valid %v, in %v", name, c.name, x, c.contains(x), c.find(x).valid(), m)
			}
		}
	}
	// and it can be emptied
	for guard := 3 * (len(m) + 1); c.size() > 0; guard-- {
		if guard < 0 {
			t.Failf("a %s cannot be emptied after panics: %v", c.name, list())
		}
		c.erase(list()[0].k)
	}
	if l := list(); len(l) != 0 {
		t.Failf("a %s holds %v after everything was erased", c.name, l)
	}
}

func runAfterSkip(t *T) {
	cname, cmp := pickCmp(t)
	f := &fuse{left: -1}
	level := []int{1, 2, 10, 64}[t.Intn(4)]
	s := skiplist.New[E, int](func(a, b E) int { f.tick(); return cmp(a, b) }, skiplist.WithMaxLevel(level), skiplist.WithGoroutineSafe())
	t.Op("after", "skiplist", cname, level)
	list := func() (out []kvE) {
		s.Traversal(func(k E, v int) bool { out = append(out, kvE{k, v}); return true })
		return
	}
	keys := []int{2, 6, 30, 200}[t.Intn(4)]
	id := 0
	for i, n := 0, t.Intn([]int{3, 12, 40, 150}[t.Intn(4)]+1); i < n; i++ {
		id++
		s.Insert(E{t.Intn(keys), id}, id)
	}
	m := list()
	for i, n := 0, 4+t.Intn(20); i < n; i++ {
		k := afterKey(t, keys, &id)
		armFuse(t, f)
		var op func()
		var name string
		reads := false
		var more []kvE
		switch w := t.Intn(12); {
		case w < 6:
			v := id
			name, op = "Insert", func() { s.Insert(k, v) }
			more = []kvE{{k, v}}
			for _, e := range m {
				if cmp(e.k, k) == 0 {
					more = append(more, kvE{e.k, v})
				}
			}
		case w < 9:
			name, op = "Remove", func() { s.Remove(k) }
		case w < 11:
			name, op, reads = "Get", func() { s.Get(k) }, true
		default:
			name, op, reads = "Traversal", func() { s.Traversal(func(E, int) bool { f.tick(); return true }) }, true
		}
		t.Op(name, k.K, k.ID, f.left)
		before := m
		if !f.guard(op) {
			m = list()
			continue
		}
		t.Count("operations of which the contents were judged after a panic")
		t.Count("panics in " + name + " of a skip list")
		t.Nontrivial()
		m = list()
		afterPanic(t, name+" of a skip list", cmp, before, m, k, reads, more)
		if s.Len() != len(m) {
			t.Failf("after a panic in %s of a skip list: Len() = %d, it lists %d entries", name, s.Len(), len(m))
		}
		for _, x := range append([]kvE{{k, -1}}, m...) {
			held, want := false, 0
			for _, e := range m {
				if cmp(e.k, x.k) == 0 {
					held, want = true, e.v
				}
			}
			if v, err := s.Get(x.k); (err == nil) != held || held && v != want {
				t.Failf("after a panic in %s of a skip list: Get(%v) = %v, %v in %v", name, x.k, v, err, m)
			}
		}
	}
	for i, e := range m {
		if !s.Remove(e.k) || s.Len() != len(m)-i-1 {
			t.Failf("a skip list cannot be emptied after panics")
		}
	}
}

func runAfterPQ(t *T) {
	cname, cmp := pickCmp(t)
	f := &fuse{left: -1}
	q := priorityqueue.New[E](func(a, b E) int { f.tick(); return cmp(a, b) }, priorityqueue.WithGoroutineSafe())
	t.Op("after", "priority queue", cname)
	keys := []int{2, 6, 30, 200}[t.Intn(4)]
	id := 0
	m := map[E]bool{}
	for i, n := 0, 4+t.Intn([]int{6, 30, 120}[t.Intn(3)]); i < n; i++ {
		k := afterKey(t, keys, &id)
		armFuse(t, f)
		push := t.Chance(2) || len(m) == 0
		t.Op("priority queue", push, k.K, f.left)
		var popped E
		var bad bool
		if push {
			bad = f.guard(func() { q.Push(k) })
		} else {
			bad = f.guard(func() { popped = q.Pop() })
		}
		if !bad {
			if push {
				m[k] = true
			} else if !m[popped] {
				t.Failf("a priority queue pops %v, which it does not hold", popped)
			} else {
				delete(m, popped)
			}
			continue
		}
		t.Count("operations of which the contents were judged after a panic")
		t.Count("panics in a priority queue")
		t.Nontrivial()
		// its order may be lost; what it holds is not
		var out []E
		for !q.Empty() {
			if len(out) > len(m)+1 {
				t.Failf("after a panic a priority queue holds more than the %d elements pushed", len(m))
			}
			out = append(out, q.Pop())
		}
		seen := map[E]bool{}
		for _, e := range out {
			if seen[e] || !m[e] && !(push && e == k) {
				t.Failf("after a panic a priority queue gives %v, which it does not hold (any more)", e)
			}
			seen[e] = true
		}
		missing := 0
		for e := range m {
			if !seen[e] {
				missing++
			}
		}
		if missing > 1 || missing == 1 && push {
			t.Failf("after a panic a priority queue has lost %d of %d elements", missing, len(m))
		}
		m = map[E]bool{}
		var best []E
		for _, e := range out {
			m[e] = true
			q.Push(e)
			best = append(best, e)
		}
		refStable(best, cmp)
		for i, e := range best {
			if i > 3 {
				break
			}
			if x := q.Pop(); x != e {
				t.Failf("a priority queue emptied and filled again after a panic pops %v, want %v", x, e)
			}
			delete(m, e)
		}
	}
}

func runAfterAlgebra(t *T) {
	cname, cmp := pickCmp(t)
	f := &fuse{left: -1}
	t.Op("after", "algebra", cname)
	keys := []int{4, 12, 60}[t.Intn(3)]
	id := 0
	var ss [2]*set.Set[E]
	var ms [2][]E
	list := func(s *set.Set[E]) (out []E) {
		s.Traversal(func(e E) bool { out = append(out, e); return true })
		return
	}
	for i := range ss {
		ss[i] = set.New[E](func(a, b E) int { f.tick(); return cmp(a, b) }, set.WithGoroutineSafe())
		for j, n := 0, t.Intn(keys+1); j < n; j++ {
			ss[i].Insert(afterKey(t, keys, &id))
		}
		ms[i] = list(ss[i])
	}
	for i := 0; i < 6; i++ {
		a, b, w := t.Intn(2), t.Intn(2), t.Intn(3)
		op := []func(*set.Set[E]) *set.Set[E]{ss[a].Intersect, ss[a].Union, ss[a].Diff}[w]
		f.left = t.Intn(1 + 4*(len(ms[a])+len(ms[b])))
		t.Op("combine", a, b, w, f.left)
		if f.guard(func() { op(ss[b]) }) {
			t.Count("operations of which the contents were judged after a panic")
			t.Count("panics in set algebra")
			t.Nontrivial()
		}
		for i, s := range ss {
			if got := list(s); !sameElems(got, ms[i]) || s.Size() != len(got) {
				t.Failf("after a panic in set algebra an operand holds %s, held %s, Size %d", showE(got), showE(ms[i]), s.Size())
			}
		}
		// both still take changes
		k := afterKey(t, keys, &id)
		if t.Chance(2) {
			ss[a].Insert(k)
		} else {
			ss[a].Erase(k)
		}
		ms[a] = list(ss[a])
	}
}
