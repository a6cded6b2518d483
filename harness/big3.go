package main

// More large objects and other element types: held iterators, listings, the
// spread of hash values and rings, and memory in waves.

import (
	"fmt"
	"io"
	"math"
	"runtime"
	gosort "sort"
	"strconv"
	"strings"

	"github.com/liyue201/gostl/algorithm/hash"
	"github.com/liyue201/gostl/ds/array"
	bloom "github.com/liyue201/gostl/ds/bloomfilter"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/ketama"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/rbtree"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/ds/stack"
	"github.com/liyue201/gostl/ds/vector"
	"github.com/liyue201/gostl/utils/comparator"
	"github.com/liyue201/gostl/utils/iterator"
)

// ---- C18: many iterators held on a large container ----

type bigHeld struct {
	it ordIter
	k  E
	s  int
}

func runBigStability(t *T) {
	kind := []int{kTreeNodes, kMap, kMultiMap, kSet, kMultiSet}[t.Case%5]
	cname, cmp := "natural", comparator.Comparator[E](cmpK)
	if t.Chance(3) {
		cname, cmp = "reverse", comparator.Reverse[E](cmpK)
	}
	c := makeOrd(t, kind, cmp)
	target := []int{300, 1200, 5000}[t.Intn(3)] + t.Intn(1000)
	space := []int{target/20 + 1, target + 1, 1 << 40}[t.Intn(3)]
	t.Op("New", c.name, cname, target, space)
	var m []entry
	var held []bigHeld
	id := 0
	lb := func(k E) int { return gosort.Search(len(m), func(i int) bool { return cmp(m[i].k, k) >= 0 }) }
	ub := func(k E) int { return gosort.Search(len(m), func(i int) bool { return cmp(m[i].k, k) > 0 }) }
	at := func(what string, it ordIter, i int) {
		if i < 0 || i >= len(m) {
			if it.valid() {
				t.Failf("%s: %s is on %v, want no element", c.name, what, it.key())
			}
			return
		}
		if !it.valid() || it.key() != m[i].k || c.hasVal && it.val() != m[i].v {
			t.Failf("%s: %s is not on %v (valid: %v), entry %d of %d", c.name, what, m[i].k, it.valid(), i, len(m))
		}
	}
	index := func(h bigHeld) int {
		i := lb(h.k)
		for m[i].s != h.s {
			i++
		}
		return i
	}
	insert := func(K int) {
		id++
		k := E{K, id}
		c.insert(k, id)
		i := ub(k)
		if !c.multi && i > 0 && cmp(m[i-1].k, k) == 0 {
			if c.hasVal {
				m[i-1].v = id
				old := m[i-1].k
				if it := c.find(k); it.valid() && (it.key() == old || it.key() == k) {
					m[i-1].k = it.key()
					for j := range held {
						if held[j].k == old {
							held[j].k = it.key()
						}
					}
				}
			}
			return
		}
		m = insertAt(m, i, entry{k, id, id})
	}
	drop := func(lo, hi int) {
		keep := held[:0]
		for _, h := range held {
			gone := false
			for _, e := range m[lo:hi] {
				gone = gone || e.s == h.s
			}
			if !gone {
				keep = append(keep, h)
			}
		}
		held = keep
		m = eraseRange(m, lo, hi)
	}
	isHeld := func(lo, hi int) bool {
		for _, h := range held {
			for _, e := range m[lo:hi] {
				if e.s == h.s {
					return true
				}
			}
		}
		return false
	}
	erase := func(K int) {
		k := E{K, 0}
		lo, hi := lb(k), ub(k)
		if c.eraseOne && hi > lo {
			hi = lo + 1
		}
		if isHeld(lo, hi) && !t.Chance(20) {
			return
		}
		c.erase(k)
		drop(lo, hi)
	}
	checkHeld := func(h bigHeld) {
		i := index(h)
		at("a held iterator", h.it, i)
		x := h.it.clone()
		x.next()
		at("the successor of a held iterator", x, i+1)
		x = h.it.clone()
		x.prev()
		at("the predecessor of a held iterator", x, i-1)
		t.Count("held iterators checked")
	}
	for phase, np := 0, 4+t.Intn(4); phase < np; phase++ {
		goal := []int{target, target / 2, target / 40, 1}[t.Intn(4)]
		if phase == 0 {
			goal = target
		}
		style := t.Intn(4)
		t.Op("phase", goal, style, len(held))
		run := t.Intn(space)
		for i, cnt := 0, target+t.Intn(target); i < cnt; i++ {
			if len(m) > 0 && len(held) < 40 && t.Chance(20) {
				j := t.Intn(len(m))
				it := c.lower(m[j].k)
				for s := lb(m[j].k); s < j; s++ {
					it.next()
				}
				held = append(held, bigHeld{it, m[j].k, m[j].s})
			}
			k := t.Intn(space)
			switch {
			case len(held) > 0 && t.Chance(3): // next to a held one
				j := index(held[t.Intn(len(held))]) + 1 - 2*t.Intn(2)
				if j >= 0 && j < len(m) {
					k = m[j].k.K
				}
			case style == 0:
				run++
				k = run % space
			case style == 1:
				run += space - 1
				k = run % space
			}
			grow := len(m) < goal
			if t.Chance(5) {
				grow = !grow
			}
			switch {
			case grow:
				insert(k)
			case c.eraseIter != nil && len(held) > 0 && t.Chance(30):
				h := held[t.Intn(len(held))]
				j := index(h)
				c.eraseIter(h.it)
				drop(j, j+1)
				t.Count("erasures through a held iterator")
			case len(m) > 0 && t.Chance(2):
				erase(m[t.Intn(len(m))].k.K)
			default:
				erase(k)
			}
			if i%8 == 0 && len(held) > 0 {
				checkHeld(held[t.Intn(len(held))])
			}
		}
		t.Tick()
		for _, h := range held {
			checkHeld(h)
			t.Nontrivial()
		}
		i := 0
		for it := c.first(); it.valid(); it.next() {
			at("the walk", it, i)
			i++
		}
		if i != len(m) || c.size() != len(m) {
			t.Failf("%s: %d entries, Size() = %d, want %d", c.name, i, c.size(), len(m))
		}
	}
	t.Count("long histories of " + c.name)
}

// ---- C29 and C30: large containers and other element types ----

func runBigIterators(t *T) {
	n := 300 + t.Intn([]int{300, 3000, 9000}[t.Intn(3)])
	if t.Chance(100) {
		n = 65500 + t.Intn(8000)
	}
	walkIterators(t, n)
}

func runBigVisitors(t *T) {
	n := 200 + t.Intn([]int{800, 3000, 5000}[t.Intn(3)])
	if t.Chance(100) && t.Case%visKinds != 9 { // not with the long prefixes
		n = 65500 + t.Intn(8000)
	}
	visitAll(t, n)
}

// silent formats as nothing.
type silent int

func (silent) String() string { return "" }

// spoken has a format of its own.
type spoken int

func (s spoken) String() string { return fmt.Sprintf("<%d] [%d>", int(s), -int(s)) }

// record is a struct that has a Go syntax of its own.
type record struct {
	N    int
	Name string
	Rest any
}

func (r record) GoString() string { return fmt.Sprintf("record %d %q %v", r.N, r.Name, r.Rest) }

// printed tells how it is formatted.
type printed int

func (p printed) Format(f fmt.State, verb rune) {
	fmt.Fprintf(f, "%d%c", int(p), verb)
	for _, c := range "+-# 0" {
		if f.Flag(int(c)) {
			fmt.Fprintf(f, "%c", c)
		}
	}
}

type listing[X any] struct {
	name  string
	str   func() string
	visit func(func(X) bool)
	want  []X
}

// listType lists the containers of elements of a type with an order.
func listType[X any](t *T, name string, mk func(i int) X, cmp comparator.Comparator[X], eq func(a, b X) bool) {
	n := []int{0, 1, 2, 3, 6, 20, 200}[t.Intn(7)]
	xs := make([]X, n)
	for i := range xs {
		xs[i] = mk(t.Intn(40))
	}
	v, d, a := vector.New[X](), deque.New[X](), array.New[X](n)
	bl, sl := bidlist.New[X](), simplelist.New[X]()
	q1, q2 := queue.New[X](), queue.New[X](queue.WithListContainer[X](), queue.WithGoroutineSafe[X]())
	s1, s2 := stack.New[X](stack.WithGoroutineSafe[X]()), stack.New[X](stack.WithListContainer[X]())
	for i, x := range xs {
		v.PushBack(x)
		d.PushBack(x)
		a.Set(i, x)
		bl.PushBack(x)
		sl.PushBack(x)
		q1.Push(x)
		q2.Push(x)
		s1.Push(x)
		s2.Push(x)
	}
	ls := []listing[X]{
		{"vector", v.String, nil, xs}, {"deque", d.String, nil, xs}, {"array", a.String, nil, xs},
		{"bidlist", bl.String, func(f func(X) bool) { bl.Traversal(f) }, xs},
		{"simplelist", sl.String, func(f func(X) bool) { sl.Traversal(f) }, xs},
		{"queue", q1.String, nil, xs}, {"queue on a list", q2.String, nil, xs},
		{"stack", s1.String, nil, xs}, {"stack on a list", s2.String, nil, xs},
	}
	if cmp != nil {
		ys := append([]X(nil), xs...)
		gosort.SliceStable(ys, func(i, j int) bool { return cmp(ys[i], ys[j]) < 0 })
		var zs []X
		for i, y := range ys {
			if i == 0 || cmp(ys[i-1], y) != 0 {
				zs = append(zs, y)
			}
		}
		st, ms := set.New[X](cmp), set.NewMultiSet[X](cmp)
		mp, sk := treemap.New[X, int](cmp), skiplist.New[X, int](cmp)
		for i, x := range xs {
			st.Insert(x)
			ms.Insert(x)
			mp.Insert(x, i)
			sk.Insert(x, i)
		}
		ls = append(ls,
			listing[X]{"set", st.String, func(f func(X) bool) { st.Traversal(f) }, zs},
			listing[X]{"multiset", ms.String, func(f func(X) bool) { ms.Traversal(f) }, ys},
			listing[X]{"map", nil, func(f func(X) bool) { mp.Traversal(func(k X, _ int) bool { return f(k) }) }, zs},
			listing[X]{"skiplist", nil, func(f func(X) bool) { sk.Traversal(func(k X, _ int) bool { return f(k) }) }, zs})
	}
	t.Op("elements", name, fmt.Sprintf("%q", fmt.Sprint(xs)))
	for _, l := range ls {
		if l.str != nil {
			var parts []string
			for _, x := range l.want {
				parts = append(parts, fmt.Sprint(x))
			}
			if g, w := l.str(), "["+strings.Join(parts, " ")+"]"; g != w {
				t.Failf("%s of %s: String() = %q, want %q", l.name, name, clip(g, 300), clip(w, 300))
			}
			t.Count("strings")
		}
		if l.visit == nil {
			continue
		}
		stop := 1 + t.Intn(len(l.want)+1)
		i := 0
		l.visit(func(x X) bool {
			if i >= stop || i >= len(l.want) || !eq(x, l.want[i]) {
				t.Failf("%s of %s: visit %d is of %v, stop after %d of %v", l.name, name, i, x, stop, l.want)
			}
			i++
			return i < stop
		})
		if i != min(stop, len(l.want)) {
			t.Failf("%s of %s: %d visits, want %d", l.name, name, i, min(stop, len(l.want)))
		}
		t.CountN("elements visited", i)
	}
	if n > 1 {
		t.Nontrivial()
	}
	t.Count("listings of " + name)
}

func eqOf[X comparable](a, b X) bool { return a == b }

func runListTypes(t *T) {
	switch t.Case % 14 {
	case 9:
		listType(t, "structs", func(i int) record { return record{i % 5, "a b"[:i%4], nil} }, func(a, b record) int {
			if c := refOrd(a.N, b.N); c != 0 {
				return c
			}
			return refOrd(a.Name, b.Name)
		}, eqOf[record])
	case 10:
		listType(t, "structs with private fields", func(i int) wideElem { return kindWide.mk(i) }, nil, kindWide.eq)
	case 11:
		listType(t, "elements with a formatter", func(i int) printed { return printed(i) }, func(a, b printed) int { return refOrd(int(a), int(b)) }, eqOf[printed])
	case 12:
		listType(t, "errors", func(i int) error { return []error{nil, io.EOF, fmt.Errorf("e%d", i)}[i%3] }, nil, eqOf[error])
	case 13:
		listType(t, "maps and arrays", func(i int) any {
			return []any{map[string]int{"b": i, "a": 1}, [3]bool{true}, []string{"x y", ""}, record{i, "r", record{}}, complex(1, float64(i)), 'x'}[i%6]
		}, nil, func(a, b any) bool { return fmt.Sprintf("%#v", a) == fmt.Sprintf("%#v", b) })
	case 0:
		listType(t, "strings", func(i int) string {
			return []string{"", "", " ", "[", "]", "a b", "é", "%d", "\x00", "\xff"}[i%10]
		}, comparator.StringComparator, eqOf[string])
	case 1:
		listType(t, "elements with an empty format", func(i int) silent { return silent(i) }, func(a, b silent) int { return refOrd(int(a), int(b)) }, eqOf[silent])
	case 2:
		listType(t, "elements with a format of their own", func(i int) spoken { return spoken(i) }, func(a, b spoken) int { return refOrd(int(a), int(b)) }, eqOf[spoken])
	case 3:
		listType(t, "interfaces", func(i int) any { return []any{nil, "", 0, spoken(3), silent(1), 2.5, true, [2]int{1, 2}}[i%8] }, nil, eqOf[any])
	case 4:
		listType(t, "floats", func(i int) float64 {
			return []float64{0, math.Copysign(0, -1), math.Inf(1), math.NaN(), 1e100, 1e-7, 2}[i%7]
		}, nil, func(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) })
	case 5:
		listType(t, "bytes", func(i int) byte { return byte(i) }, comparator.Uint8Comparator, eqOf[byte])
	case 6:
		listType(t, "slices", func(i int) []int { return make([]int, i%4) }, nil, func(a, b []int) bool { return len(a) == len(b) })
	case 7:
		listType(t, "empty structs", func(i int) struct{} { return struct{}{} }, nil, eqOf[struct{}])
	case 8:
		listType(t, "bools", func(i int) bool { return i%2 == 0 }, comparator.BoolComparator, eqOf[bool])
	}
}

// runIterTypes walks iterators over elements of a type.
func runIterTypes[X any](t *T, kd kind[X]) {
	n := []int{0, 1, 2, 7, 140, 600}[t.Intn(6)]
	xs := make([]X, n)
	for i := range xs {
		xs[i] = kd.mk(t.Intn(50))
	}
	v, d, a := vector.New[X](), deque.New[X](), array.New[X](n)
	bl, sl := bidlist.New[X](), simplelist.New[X]()
	split := t.Intn(n + 1)
	for i := split - 1; i >= 0; i-- {
		d.PushFront(xs[i])
	}
	for i, x := range xs {
		v.PushBack(x)
		if i >= split {
			d.PushBack(x)
		}
		a.Set(i, x)
		bl.PushBack(x)
		sl.PushBack(x)
	}
	w := slice.NewSliceWrapper(append([]X(nil), xs...))
	t.Op("elements", kd.name, n, split)
	for _, r := range []struct {
		name        string
		first, last iterator.RandomAccessIterator[X]
		begin, end  iterator.RandomAccessIterator[X]
	}{
		{"vector", v.First(), v.Last(), v.Begin(), v.End()},
		{"deque", d.First(), d.Last(), d.Begin(), d.End()},
		{"array", a.First(), a.Last(), a.Begin(), a.End()},
		{"slice", w.First(), w.Last(), w.Begin(), w.End()},
	} {
		ys := append([]X(nil), xs...)
		for round := 0; round < 2; round++ {
			i := 0
			it := r.begin.Clone().(iterator.RandomAccessIterator[X])
			for ; it.IsValid(); it.Next() {
				if i >= n || !kd.eq(it.Value(), ys[i]) {
					t.Failf("%s of %s: element %d of %d", r.name, kd.name, i, n)
				}
				i++
			}
			if i != n || !it.Equal(r.end) || it.Equal(r.begin) != (n == 0) {
				t.Failf("%s of %s: the walk ends after %d of %d, equal to the end: %v", r.name, kd.name, i, n, it.Equal(r.end))
			}
			it = r.last.Clone().(iterator.RandomAccessIterator[X])
			for it.IsValid() {
				i--
				if i < 0 || !kd.eq(it.Value(), ys[i]) {
					t.Failf("%s of %s: backwards, element %d of %d", r.name, kd.name, i, n)
				}
				it.Prev()
			}
			if i != 0 {
				t.Failf("%s of %s: the walk back misses %d of %d", r.name, kd.name, i, n)
			}
			for j := 0; j < 10 && n > 0; j++ {
				p, x := t.Intn(n), kd.mk(t.Intn(50))
				r.begin.IteratorAt(p).SetValue(x)
				ys[p] = x
				t.Count("values set through an iterator")
			}
		}
		t.CountN("steps forward", 2*n)
	}
	i := 0
	for it := bidlist.NewIterator(bl.FrontNode()); it.IsValid(); it.Next() {
		if i >= n || !kd.eq(it.Value(), xs[i]) {
			t.Failf("bidlist of %s: element %d of %d", kd.name, i, n)
		}
		i++
	}
	for it := bidlist.NewIterator(bl.BackNode()); it.IsValid(); it.Prev() {
		i--
		if i < 0 || !kd.eq(it.Value(), xs[i]) {
			t.Failf("bidlist of %s: backwards, element %d of %d", kd.name, i, n)
		}
	}
	if i != 0 {
		t.Failf("bidlist of %s: the walks differ in length by %d", kd.name, i)
	}
	for it := simplelist.NewIterator(sl.FrontNode()); it.IsValid(); it.Next() {
		if i >= n || !kd.eq(it.Value(), xs[i]) {
			t.Failf("simplelist of %s: element %d of %d", kd.name, i, n)
		}
		i++
	}
	if i != n {
		t.Failf("simplelist of %s: the walk ends after %d of %d", kd.name, i, n)
	}
	if n > 1 {
		t.Nontrivial()
	}
}

// ---- C23: long sequences, and independence of the values ----

func runLongHashes(t *T) {
	n := []int{1024, 4096, 10000, 40000, 66000}[t.Intn(5)] + t.Intn(17) - 8
	seed := hostileString(t)
	t.Op("GenHashInts", fmt.Sprintf("%x", clip(seed, 60)), n)
	hs := hash.GenHashInts([]byte(seed), n)
	if len(hs) != n {
		t.Failf("GenHashInts(%x, %d) has %d values", seed, n, len(hs))
	}
	seen := make(map[uint64]int, n)
	for i, h := range hs {
		if j, ok := seen[h]; ok {
			t.Failf("GenHashInts(%x, %d): values %d and %d are the same", seed, n, j, i)
		}
		seen[h] = i
	}
	for _, m := range []int{1, 9, n / 2, n - 1} {
		for i, h := range hash.GenHashInts([]byte(seed), m) {
			if h != hs[i] {
				t.Failf("GenHashInts(%x, %d) and (…, %d) differ at %d", seed, n, m, i)
			}
		}
	}
	// every bit is set about half of the time, at every position modulo 8, and
	// neighbouring values have nothing to do with each other
	for r := 0; r < 8; r++ {
		var ones [64]int
		cnt, dist := 0, 0
		for i := r; i < n; i += 8 {
			for b := range ones {
				ones[b] += int(hs[i] >> b & 1)
			}
			for b := 0; i > 0 && b < 64; b++ {
				dist += int((hs[i] ^ hs[i-1]) >> b & 1)
			}
			cnt++
		}
		for b, o := range ones {
			if d := math.Abs(float64(o) - float64(cnt)/2); d > 4*math.Sqrt(float64(cnt))+2 {
				t.Failf("GenHashInts(%x, %d): bit %d of the values %d modulo 8 is set %d times in %d", seed, n, b, r, o, cnt)
			}
		}
		if d := math.Abs(float64(dist) - 32*float64(cnt)); d > 4*math.Sqrt(64*float64(cnt))+66 {
			t.Failf("GenHashInts(%x, %d): a value %d modulo 8 differs from the one before in %.2f of 64 bits on average", seed, n, r, float64(dist)/float64(cnt))
		}
	}
	t.CountN("hash values beyond the first digest", n-8)
	t.Nontrivial()
}

// runHashPairs looks for dependence between the values of a seed, and between
// seeds that are alike.
func runHashPairs(t *T) {
	k := []int{2, 4, 9, 17, 40}[t.Intn(5)]
	mod := uint64([]int{2, 5, 8, 9, 13, 16}[t.Intn(6)])
	style, seedOf := words(t)
	const n = 3000
	type pair struct{ a, b int }
	var ps []pair
	for i := 0; i < 6; i++ {
		p := pair{t.Intn(k), t.Intn(k)}
		if p.a != p.b {
			ps = append(ps, p)
		}
	}
	ps = append(ps, pair{0, 1}, pair{k - 1, k - 2})
	cells := make([][]int, len(ps))
	for i := range cells {
		cells[i] = make([]int, mod*mod)
	}
	seen := map[uint64]pair{}
	next := make([]int, mod*mod) // the first value of one seed and of the next
	var last uint64
	for i := 0; i < n; i++ {
		hs := hash.GenHashInts([]byte(seedOf(i)), k)
		for j, h := range hs {
			if p, ok := seen[h]; ok {
				t.Failf("GenHashInts: value %d of %x is value %d of %x", j, seedOf(i), p.b, seedOf(p.a))
			}
			seen[h] = pair{i, j}
		}
		for j, p := range ps {
			cells[j][hs[p.a]%mod*mod+hs[p.b]%mod]++
		}
		if i > 0 {
			next[last%mod*mod+hs[0]%mod]++
		}
		last = hs[0]
		if i%500 == 0 {
			t.Tick()
		}
	}
	chi := func(c []int) float64 {
		e := float64(n) / float64(len(c))
		x := 0.0
		for _, o := range c {
			x += (float64(o) - e) * (float64(o) - e) / e
		}
		return x
	}
	dof := float64(mod*mod - 1)
	lim := dof + 11*math.Sqrt(2*dof) + 40
	for j, p := range ps {
		if x := chi(cells[j]); x > lim {
			t.Failf("GenHashInts: the values %d and %d modulo %d of %d seeds depend on each other (chi-square %.0f with %.0f degrees of freedom)", p.a, p.b, mod, n, x, dof)
		}
	}
	if x := chi(next); x > lim {
		t.Failf("GenHashInts: the first values modulo %d of seeds alike depend on each other (chi-square %.0f with %.0f degrees of freedom)", mod, x, dof)
	}
	t.Op("pairs", k, mod, style)
	t.CountN("pairs of hash values tested for dependence", n*len(ps))
	t.Nontrivial()
}

// runBigBloomRate: as runBloomTheory for filters that are large, rebuilt, or
// filled only in part, and for values added many times.
func runBigBloomRate(t *T) {
	k := []int{1, 2, 3, 5, 7, 8, 9, 10, 15, 16, 17, 24, 48, 64}[t.Intn(14)]
	n := 200 + t.Intn([]int{300, 3000, 12000}[t.Intn(3)])
	if k > 20 {
		n = 200 + n/8
	}
	per := []float64{0.3, 0.7, 1.2}[t.Intn(3)]
	if k > 20 {
		per = []float64{2, 3, 4}[t.Intn(3)] // fuller, so that there is something to see
	}
	m := int(float64(n*k) / per)
	switch t.Intn(4) {
	case 0: // a power of two
		for b := 1; b < 2*m; b *= 2 {
			if b >= m {
				m = b
			}
		}
	case 1: // a multiple of what hashes might have in common
		m = m/64*64 + 64
	case 2:
		m |= 1
	}
	var opts []bloom.Option
	if t.Chance(2) {
		opts = append(opts, bloom.WithGoroutineSafe())
	}
	f := bloom.New(uint64(m), uint64(k), opts...)
	style, val := words(t)
	t.Op("New", m, k, n, style)
	again := t.Chance(3)
	half := n / 2
	for i := 0; i < n; i++ {
		f.Add(val(i))
		if again {
			f.Add(val(t.Intn(i + 1)))
		}
		if i == half && t.Chance(2) {
			f = bloom.NewFromData(f.Data(), opts...)
			t.Count("rates of rebuilt filters")
		}
	}
	want := math.Pow(1-math.Pow(1-1/float64(m), float64(k*n)), float64(k))
	probes := 6000
	hits := 0
	for i := 0; i < probes; i++ {
		if f.Contains(val(n + i)) {
			hits++
		}
		if i%1000 == 0 {
			t.Tick()
		}
	}
	e := want * float64(probes)
	fluct := 1 + 6*float64(k)/math.Sqrt(float64(k*n))
	if b := e*fluct + 7*math.Sqrt(e*fluct) + 7; float64(hits) > b {
		t.Failf("New(%d, %d) with %d values has %d false positives in %d tests, independent hash functions give %.1f", m, k, n, hits, probes, e)
	}
	t.CountN("non-members tested", probes)
	if k > 8 {
		t.Count("rates with more than 8 hash functions")
	}
	t.Nontrivial()
}

// ---- C25: many nodes or many replicas ----

func runBigBalance(t *T) {
	reps := []int{0, 16, 40, 100, 160, 500, 2000}[t.Intn(7)]
	nodes := 2 + t.Intn([]int{20, 100, 400}[t.Intn(3)])
	opts := []ketama.Option{}
	if reps > 0 {
		opts = append(opts, ketama.WithReplicas(reps))
	}
	for reps*nodes > 12000 {
		nodes = nodes/2 + 1
	}
	if t.Chance(2) {
		opts = append(opts, ketama.WithGoroutineSafe())
	}
	k := ketama.New(opts...)
	style, name := words(t)
	kstyle, key := words(t)
	t.Op("New", reps, nodes, style, kstyle)
	if reps == 0 {
		reps = 10 // the default
	}
	all := nodes + t.Intn(nodes)
	var names []string
	for i := 0; i < all; i++ {
		names = append(names, name(i))
	}
	t.R.Shuffle(all, func(i, j int) { names[i], names[j] = names[j], names[i] })
	if t.Chance(2) {
		k.Add(names...)
	} else {
		for _, x := range names {
			k.Add(x)
			if t.Chance(4) {
				k.Add(x) // again
			}
		}
	}
	if t.Chance(2) {
		k.Remove(names[nodes:]...)
	} else {
		for _, x := range names[nodes:] {
			k.Remove(x)
		}
	}
	const per = 300
	n := nodes * per
	cnt := map[string]int{}
	for i := 0; i < n; i++ {
		x, ok := k.Get(key(i))
		if !ok {
			t.Failf("Get found no node among %d", nodes)
		}
		cnt[x]++
		if i%1000 == 0 {
			t.Tick()
		}
	}
	// A node's share of the circle is a sum of reps gaps: mean 1, variance
	// (1-1/nodes)/reps, a gamma distribution; the keys add Poisson noise.
	sum2 := 0.0
	sd := math.Sqrt(1/float64(reps) + 1.0/per)
	for _, x := range names[:nodes] {
		share := float64(cnt[x]) / per
		sum2 += (share - 1) * (share - 1)
		if hi := math.Exp(8*sd) + 0.2; share > hi || share < 1-8*sd {
			t.Failf("with %d nodes and %d replicas, %q is given %.2f times its fair share of %d keys", nodes, reps, x, share, n)
		}
		delete(cnt, x)
	}
	if len(cnt) > 0 {
		t.Failf("keys are mapped to removed nodes: %v", cnt)
	}
	// the variance over the nodes is that of nodes*reps independent positions
	if v := sum2 / float64(nodes); v > 3*sd*sd*(1+6/math.Sqrt(float64(nodes))) {
		t.Failf("with %d nodes and %d replicas the shares have a standard deviation of %.3f, want about %.3f", nodes, reps, math.Sqrt(v), sd)
	}
	t.CountN("keys mapped", n)
	t.Count("variances of shares")
	t.Nontrivial()
}

// ---- C32: waves of large elements ----

type payload [64]uint64 // 512 bytes

type waveCont struct {
	name string
	// in adds element i, out takes one out; both are told which of several ways
	mk func(t *T) (in, out func(i, way int), size func() int, keep any)
}

func waves() (ws []waveCont) {
	add := func(name string, mk func(t *T) (in, out func(i, way int), size func() int, keep any)) {
		ws = append(ws, waveCont{name, mk})
	}
	mkp := func(i int) *payload { return &payload{uint64(i)} }
	add("vector", func(t *T) (in, out func(i, way int), size func() int, keep any) {
		v := vector.New[*payload]()
		return func(i, way int) {
				if way%3 == 0 && v.Size() > 0 {
					v.InsertAt(i%v.Size(), mkp(i))
				} else {
					v.PushBack(mkp(i))
				}
			}, func(i, way int) {
				switch way % 4 {
				case 0:
					v.EraseAt(i % v.Size())
				case 1:
					v.EraseIndexRange(v.Size()-1, v.Size())
				default:
					v.PopBack()
				}
			}, v.Size, v
	})
	add("deque", func(t *T) (in, out func(i, way int), size func() int, keep any) {
		d := deque.New[*payload]()
		return func(i, way int) {
				switch way % 3 {
				case 0:
					d.PushFront(mkp(i))
				case 1:
					d.PushBack(mkp(i))
				default:
					if i%8 == 0 {
						d.Insert(i%(d.Size()+1), mkp(i))
					} else {
						d.PushBack(mkp(i))
					}
				}
			}, func(i, way int) {
				switch way % 4 {
				case 0:
					d.PopFront()
				case 1:
					d.PopBack()
				case 2:
					if i%8 == 0 {
						d.EraseAt(i % d.Size())
					} else {
						d.PopFront()
					}
				default:
					lo := i % d.Size()
					d.EraseRange(lo, min(lo+100, d.Size()))
				}
			}, d.Size, d
	})
	add("bidlist", func(t *T) (in, out func(i, way int), size func() int, keep any) {
		l := bidlist.New[*payload]()
		return func(i, way int) {
				if way%2 == 0 {
					l.PushBack(mkp(i))
				} else {
					l.PushFront(mkp(i))
				}
			}, func(i, way int) {
				switch way % 3 {
				case 0:
					l.PopFront()
				case 1:
					l.PopBack()
				default:
					l.Remove(l.FrontNode())
				}
			}, l.Len, l
	})
	add("simplelist", func(t *T) (in, out func(i, way int), size func() int, keep any) {
		l := simplelist.New[*payload]()
		return func(i, way int) {
			if way%2 == 0 {
				l.PushBack(mkp(i))
			} else {
				l.PushFront(mkp(i))
			}
		}, func(i, way int) { l.Remove(nil, l.FrontNode()) }, l.Len, l
	})
	for _, list := range []bool{false, true} {
		add(fmt.Sprint("queue, list ", list), func(t *T) (in, out func(i, way int), size func() int, keep any) {
			var o []queue.Option[*payload]
			if list {
				o = append(o, queue.WithListContainer[*payload]())
			}
			q := queue.New[*payload](o...)
			return func(i, way int) { q.Push(mkp(i)) }, func(i, way int) {
				if way%4 == 0 {
					q.Clear()
				} else {
					q.Pop()
				}
			}, q.Size, q
		})
		add(fmt.Sprint("stack, list ", list), func(t *T) (in, out func(i, way int), size func() int, keep any) {
			var o []stack.Option[*payload]
			if list {
				o = append(o, stack.WithListContainer[*payload]())
			}
			q := stack.New[*payload](o...)
			return func(i, way int) { q.Push(mkp(i)) }, func(i, way int) {
				if way%4 == 0 {
					q.Clear()
				} else {
					q.Pop()
				}
			}, q.Size, q
		})
	}
	add("priority queue", func(t *T) (in, out func(i, way int), size func() int, keep any) {
		q := priorityqueue.New[*payload](func(a, b *payload) int { return refOrd(a[0]%97, b[0]%97) })
		return func(i, way int) { q.Push(mkp(i)) }, func(i, way int) {
			if way%4 == 0 {
				q.Clear()
			} else {
				q.Pop()
			}
		}, q.Size, q
	})
	key := func(i int) int { return i * 7919 % 100003 }
	add("rbtree", func(t *T) (in, out func(i, way int), size func() int, keep any) {
		tr := rbtree.New[int, *payload](refOrd[int])
		return func(i, way int) { tr.Insert(key(i), mkp(i)) }, func(i, way int) {
			switch way % 4 {
			case 0:
				tr.Delete(tr.First())
			case 1:
				tr.Delete(tr.Last())
			case 2:
				n := tr.FindLowerBoundNode(key(i))
				if n == nil {
					n = tr.First()
				}
				tr.Delete(n)
			default:
				tr.Clear()
			}
		}, tr.Size, tr
	})
	add("map", func(t *T) (in, out func(i, way int), size func() int, keep any) {
		m := treemap.New[int, *payload](refOrd[int])
		return func(i, way int) { m.Insert(key(i), mkp(i)); m.Insert(key(i), mkp(i)) }, func(i, way int) {
			switch way % 4 {
			case 0:
				m.EraseIter(m.First())
			case 1:
				m.Erase(m.Last().Key())
			case 2:
				m.Clear()
			default:
				m.Erase(m.First().Key())
			}
		}, m.Size, m
	})
	add("multimap", func(t *T) (in, out func(i, way int), size func() int, keep any) {
		m := treemap.NewMultiMap[int, *payload](refOrd[int])
		return func(i, way int) { m.Insert(key(i)%500, mkp(i)) }, func(i, way int) {
			if way%4 == 0 {
				m.Clear()
			} else {
				m.Erase(m.First().Key())
			}
		}, m.Size, m
	})
	cmpP := func(a, b *payload) int { return refOrd(a[0], b[0]) }
	add("set", func(t *T) (in, out func(i, way int), size func() int, keep any) {
		s := set.New[*payload](cmpP)
		return func(i, way int) { s.Insert(mkp(key(i))); s.Insert(mkp(key(i))) }, func(i, way int) {
			switch way % 4 {
			case 0:
				s.Clear()
			case 1:
				s.Erase(s.Last().Value())
			default:
				s.Erase(s.First().Value())
			}
		}, s.Size, s
	})
	add("multiset", func(t *T) (in, out func(i, way int), size func() int, keep any) {
		s := set.NewMultiSet[*payload](cmpP)
		return func(i, way int) { s.Insert(mkp(key(i) % 700)) }, func(i, way int) {
			switch way % 4 {
			case 0:
				s.Clear()
			case 1:
				s.EraseAll(s.Last().Value())
			default:
				s.Erase(s.First().Value())
			}
		}, s.Size, s
	})
	add("skiplist", func(t *T) (in, out func(i, way int), size func() int, keep any) {
		s := skiplist.New[int, *payload](refOrd[int])
		var ks []int
		return func(i, way int) {
				s.Insert(i, mkp(i))
				s.Insert(i, mkp(i))
				ks = append(ks, i)
			}, func(i, way int) {
				j := len(ks) - 1
				if way%2 == 0 {
					ks[j], ks[i%len(ks)] = ks[i%len(ks)], ks[j]
				}
				s.Remove(ks[j])
				ks = ks[:j]
			}, s.Len, s
	})
	add("hamt", func(t *T) (in, out func(i, way int), size func() int, keep any) {
		h := hamt.New[*payload]()
		var ks []hamt.Key
		return func(i, way int) {
				k := hamt.Key(strconv.Itoa(i))
				h.Insert(k, mkp(i))
				h.Insert(k, mkp(i))
				ks = append(ks, k)
			}, func(i, way int) {
				j := len(ks) - 1
				if way%2 == 0 {
					ks[j], ks[i%len(ks)] = ks[i%len(ks)], ks[j]
				}
				h.Erase(ks[j])
				ks = ks[:j]
			}, func() int { return len(ks) }, h
	})
	return
}

var allWaves = waves()

// runWaves fills and empties a container of large elements again and again:
// what it keeps may not exceed a small multiple of one filling.
func runWaves(t *T) {
	w := allWaves[t.Case%len(allWaves)]
	top := []int{300, 1000, 3000}[t.Intn(3)] + t.Intn(200)
	in, out, size, keep := w.mk(t)
	t.Op(w.name, top)
	start := heapNow()
	// own bookkeeping (key lists) and small structures
	limit := int64(top)*(512*5/2+400) + 1<<18
	i := 0
	rounds := 5 + t.Intn(4)
	for r := 0; r < rounds; r++ {
		way := t.Intn(12)
		mixed := t.Chance(3)
		t.Op("wave", way, mixed)
		for size() < top {
			i++
			if mixed {
				way = t.Intn(12)
			}
			in(i, way)
			if i%256 == 0 {
				t.Tick()
			}
		}
		low := []int{0, 0, top / 50, top / 3}[t.Intn(4)]
		way = t.Intn(12)
		for size() > low {
			i++
			if mixed {
				way = t.Intn(12)
			}
			out(i, way)
			if i%256 == 0 {
				t.Tick()
			}
		}
		if r >= rounds-2 {
			if live := heapNow() - start; live > limit {
				t.Failf("%s: after %d waves of up to %d elements of 512 bytes, %d are held and %d bytes live, more than %d", w.name, r+1, top, size(), live, limit)
			}
			t.Count("heaps compared")
		}
	}
	runtime.KeepAlive(keep)
	t.CountN("elements that passed through", i)
	t.Count("waves through " + w.name)
	t.Nontrivial()
}

// runFlow lets elements pass through a container that stays at one level.
func runFlow(t *T) {
	w := allWaves[t.Case%len(allWaves)]
	level := []int{60, 400, 1500, 5000}[t.Intn(4)] + t.Intn(200)
	in, out, size, keep := w.mk(t)
	t.Op(w.name, level)
	start := heapNow()
	limit := int64(level)*(512*5/2+400) + 1<<18
	i := 0
	for size() < level {
		i++
		in(i, 1)
	}
	total := max(20000, 6*level)
	wayIn, wayOut := 1, 1
	gap := 1
	for i < total {
		if t.Intn(3000) == 0 {
			wayIn, wayOut, gap = t.Intn(12), t.Intn(12), 1+t.Intn(1+t.Intn(300))
		}
		for n := 0; size() >= level || n < gap && size() > level-gap && size() > 0; n++ {
			i++
			out(i, wayOut)
		}
		for size() < level {
			i++
			in(i, wayIn)
		}
		if i%64 == 0 {
			t.Tick()
		}
	}
	if live := heapNow() - start; live > limit {
		t.Failf("%s: after %d elements of 512 bytes passed, %d are held and %d bytes live, more than %d", w.name, i, size(), live, limit)
	}
	runtime.KeepAlive(keep)
	t.Count("heaps compared")
	t.CountN("elements that passed through", i)
	t.Count("flows through " + w.name)
	t.Nontrivial()
}

var runIterKinds = bigKinds("iterators", runIterTypes[int], runIterTypes[string], runIterTypes[*int], runIterTypes[any], runIterTypes[wideElem], runIterTypes[struct{}], runIterTypes[[]int], runIterTypes[float64], runIterTypes[byte])
