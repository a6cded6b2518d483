package main

import (
	"bytes"
	"errors"
	"fmt"
	gosort "sort"
	"strconv"
	"strings"

	"github.com/liyue201/gostl/ds/bitmap"
	bloom "github.com/liyue201/gostl/ds/bloomfilter"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/ketama"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/utils/comparator"
	"github.com/liyue201/gostl/utils/iterator"
)

// ---- C14, C15, C16: large ordered containers ----

type bigOrd struct {
	t      *T
	c      *ordCont
	cmp    comparator.Comparator[E]
	groups map[int][]entry // by key, in order of insertion
	keys   []int           // the keys that are there, in no order
	pos    map[int]int     // where they are in keys
	n      int
	serial int
}

func (o *bigOrd) insert(k int) {
	o.serial++
	e := entry{E{k, o.serial}, o.serial, o.serial}
	o.c.insert(e.k, e.v)
	g, ok := o.groups[k]
	if ok && !o.c.multi {
		g[0].v = e.v
		if o.c.hasVal {
			if it := o.c.find(e.k); it.valid() && it.key() == e.k {
				g[0].k = e.k
			}
		}
		return
	}
	if !ok {
		o.pos[k] = len(o.keys)
		o.keys = append(o.keys, k)
	}
	o.groups[k] = append(g, e)
	o.n++
}

func (o *bigOrd) gone(k int) {
	i, last := o.pos[k], o.keys[len(o.keys)-1]
	o.keys[i] = last
	o.pos[last] = i
	o.keys = o.keys[:len(o.keys)-1]
	delete(o.pos, k)
	delete(o.groups, k)
}

func (o *bigOrd) erase(k int) {
	t, c := o.t, o.c
	g := o.groups[k]
	probe := E{k, -1}
	one := c.eraseOne
	switch {
	case len(g) > 0 && c.eraseIter != nil && t.Chance(3):
		it := c.find(probe)
		i := t.Intn(len(g))
		for j := 0; j < i; j++ {
			it.next()
		}
		if !it.valid() || it.key() != g[i].k {
			t.Failf("%s: entry %d of key %d is not where it should be", c.name, i, k)
		}
		c.eraseIter(it)
		o.n--
		if len(g) == 1 {
			o.gone(k)
		} else {
			o.groups[k] = eraseRange(append([]entry(nil), g...), i, i+1)
		}
		return
	case c.eraseAll != nil && t.Chance(3):
		c.eraseAll(probe)
		one = false
	default:
		c.erase(probe)
	}
	if len(g) == 0 {
		return
	}
	if one && len(g) > 1 {
		o.groups[k] = g[1:]
		o.n--
		return
	}
	o.n -= len(g)
	o.gone(k)
}

func (o *bigOrd) lookup(k int) {
	t, c := o.t, o.c
	g := o.groups[k]
	it := c.find(E{k, -2})
	if it.valid() != (len(g) > 0) || len(g) > 0 && (it.key() != g[0].k || c.hasVal && it.val() != g[0].v) {
		t.Failf("%s: Find(%d) of %d entries is wrong: valid %v, want %v", c.name, k, o.n, it.valid(), g)
	}
	if c.contains != nil && c.contains(E{k, -2}) != (len(g) > 0) {
		t.Failf("%s: Contains(%d) = %v", c.name, k, len(g) == 0)
	}
	if c.get != nil {
		v, err := c.get(E{k, -2})
		if (err == nil) != (len(g) > 0) || len(g) > 0 && v != g[0].v {
			t.Failf("%s: Get(%d) = %d, %v, want %v", c.name, k, v, err, g)
		}
	}
	if c.count != nil && (o.n < 200 || t.Chance(o.n/100)) && c.count(E{k, -2}) != len(g) {
		t.Failf("%s: Count(%d) = %d, want %d", c.name, k, c.count(E{k, -2}), len(g))
	}
}

func (o *bigOrd) check() {
	t, c := o.t, o.c
	if c.size() != o.n {
		t.Failf("%s: Size() = %d, want %d", c.name, c.size(), o.n)
	}
	ks := append([]int(nil), o.keys...)
	gosort.Slice(ks, func(i, j int) bool { return o.cmp(E{ks[i], 0}, E{ks[j], 0}) < 0 })
	var m []entry
	for _, k := range ks {
		m = append(m, o.groups[k]...)
	}
	i := 0
	c.traverse(func(k E, v int) bool {
		if i >= len(m) || m[i].k != k || c.hasVal && m[i].v != v {
			t.Failf("%s: Traversal gives %v=%d in place %d of %d", c.name, k, v, i, len(m))
		}
		i++
		return true
	})
	if i != len(m) {
		t.Failf("%s: Traversal gives %d entries, want %d", c.name, i, len(m))
	}
	i = 0
	for it := c.first(); it.valid(); it.next() {
		if i >= len(m) || it.key() != m[i].k || c.hasVal && it.val() != m[i].v {
			t.Failf("%s: iteration gives %v in place %d of %d", c.name, it.key(), i, len(m))
		}
		i++
	}
	if i != len(m) {
		t.Failf("%s: iteration gives %d entries, want %d", c.name, i, len(m))
	}
	for it := c.last(); it.valid(); it.prev() {
		i--
		if i < 0 || it.key() != m[i].k {
			t.Failf("%s: backward iteration gives %v in place %d", c.name, it.key(), i)
		}
	}
	if i != 0 {
		t.Failf("%s: backward iteration misses %d entries", c.name, i)
	}
	for j := 0; j < 60 && len(m) > 0; j++ {
		k := E{m[t.Intn(len(m))].k.K + t.Intn(3) - 1, -3}
		lb := gosort.Search(len(m), func(i int) bool { return o.cmp(m[i].k, k) >= 0 })
		ub := gosort.Search(len(m), func(i int) bool { return o.cmp(m[i].k, k) > 0 })
		for _, b := range []struct {
			n  string
			it ordIter
			i  int
		}{{"LowerBound", c.lower(k), lb}, {"UpperBound", c.upper(k), ub}} {
			if b.it.valid() != (b.i < len(m)) || b.i < len(m) && b.it.key() != m[b.i].k {
				t.Failf("%s: %s(%d) of %d entries is wrong", c.name, b.n, k.K, len(m))
			}
		}
		o.lookup(k.K)
	}
	if c.isRB != nil {
		if ok, err := c.isRB(); !ok {
			t.Failf("rbtree: IsRbTree() = false, %v, with %d entries", err, len(m))
		}
		if rbLay.ok && c.tree != nil {
			why, cnt, h := rbValid(c.tree, o.cmp)
			if why != "" || cnt != len(m) || h > 2*log2ceil(len(m)+1)+1 {
				t.Failf("rbtree: %s (%d nodes, height %d, want %d nodes)", why, cnt, h, len(m))
			}
		}
	}
	t.State(mix(uint64(len(m)), uint64(len(ks))))
	t.Count("full comparisons")
	t.CountN("entries compared", 3*len(m))
}

func runBigOrd(kinds ...int) func(*T) {
	return func(t *T) {
		cname, cmp := "natural", comparator.Comparator[E](cmpK)
		if t.Chance(3) {
			cname, cmp = "reverse", comparator.Reverse[E](cmpK)
		}
		c := makeOrd(t, kinds[t.Case%len(kinds)], cmp)
		o := &bigOrd{t: t, c: c, cmp: cmp, groups: map[int][]entry{}, pos: map[int]int{}}
		target := bigSize(t)
		if target > 30000 {
			target = 30000 + t.Intn(20000)
			if t.Chance(3) {
				target += 36000 // more than 16 bits
			}
		}
		space := []int{max(2, target/200), target/2 + 1, 2 * target, 1 << 40}[t.Intn(4)]
		t.Op("New", c.name, cname, target, space)
		ops, budget := 0, 4*target+100
		run := 0
		for ops < budget {
			cnt := 1 + t.Intn(max(1, target))
			bias := t.Intn(9)
			style := t.Intn(5)
			t.Op("phase", cnt, bias, style)
			for i := 0; i < cnt; i++ {
				ops++
				k := t.R.IntN(space) - space/3
				switch style {
				case 0:
					run++
					k = run % space
				case 1:
					run--
					k = run % space
				}
				if o.n == 0 || o.n < target && t.Intn(8) < bias {
					o.insert(k)
				} else {
					if t.Chance(5) || len(o.keys) == 0 {
						o.erase(k)
					} else {
						o.erase(o.keys[t.Intn(len(o.keys))])
					}
				}
				if i%16 == 0 {
					o.lookup(k)
				}
			}
			if t.Chance(25) {
				t.Op("Clear")
				c.clear()
				o.groups, o.pos, o.keys, o.n = map[int][]entry{}, map[int]int{}, nil, 0
			}
			if o.n > 300 {
				t.Nontrivial()
			}
			o.check()
		}
		t.CountN("operations in long histories", ops)
		t.Count("long histories of a " + c.name)
	}
}

// ---- C17 ----

func runBigAlgebra(t *T) {
	na, nb := bigSize(t)/2, bigSize(t)/2
	if t.Chance(3) {
		na = landmark(t, 20000)
	}
	if t.Chance(3) {
		nb = landmark(t, 20000)
	}
	if t.Chance(40) {
		na = 65536 + t.Intn(10000) // more than 16 bits
	}
	if t.Chance(40) {
		nb = 65536 + t.Intn(10000)
	}
	space := max(2, []int{na, na + nb, 4 * (na + nb)}[t.Intn(3)])
	exact := t.Chance(2) && space >= na+nb
	mk := func(n, space, off int) (*set.Set[int], map[int]bool) {
		var o []set.Option
		if t.Chance(2) {
			o = append(o, set.WithGoroutineSafe())
		}
		s, m := set.New[int](comparator.IntComparator, o...), map[int]bool{}
		for i := 0; i < n || exact && len(m) < n; i++ {
			k := off + t.Intn(space)
			s.Insert(k)
			m[k] = true
			if exact && len(m) == n {
				break
			}
		}
		return s, m
	}
	t.Op("sets", na, nb, space)
	a, ma := mk(na, space, 0)
	b, mb := mk(nb, space, t.Intn(space))
	list := func(s *set.Set[int]) (out []int) {
		for it := s.Begin(); it.IsValid(); it.Next() {
			out = append(out, it.Value())
		}
		return
	}
	sorted := func(m map[int]bool) []int {
		out := make([]int, 0, len(m))
		for k := range m {
			out = append(out, k)
		}
		gosort.Ints(out)
		return out
	}
	same := func(what string, got, want []int) {
		if len(got) != len(want) {
			t.Failf("%s of sets of %d and %d has %d elements, want %d", what, len(ma), len(mb), len(got), len(want))
		}
		for i := range got {
			if got[i] != want[i] {
				t.Failf("%s of sets of %d and %d: element %d is %d, want %d", what, len(ma), len(mb), i, got[i], want[i])
			}
		}
		t.CountN("elements compared", len(got))
	}
	inter, union, diff := map[int]bool{}, map[int]bool{}, map[int]bool{}
	for k := range ma {
		union[k] = true
		if mb[k] {
			inter[k] = true
		} else {
			diff[k] = true
		}
	}
	for k := range mb {
		union[k] = true
	}
	same("Intersect", list(a.Intersect(b)), sorted(inter))
	same("Union", list(a.Union(b)), sorted(union))
	same("Diff", list(a.Diff(b)), sorted(diff))
	same("the receiver after the operations", list(a), sorted(ma))
	same("the operand after the operations", list(b), sorted(mb))
	if len(inter) > 20 && len(diff) > 20 {
		t.Nontrivial()
	}
}

// ---- C19 and C20: large dictionaries ----

type dict[K any] struct {
	name   string
	insert func(K, int)
	get    func(K) (int, error)
	erase  func(K) bool
	list   func(func(K, int) bool)
	keys   func() []K
	length func() int
	absent error
}

func runDict[K any](t *T, d dict[K], mk func(i int) K, id func(K) string, sorted func(a, b string) bool) {
	m := map[string]int{}
	var present []int
	where := map[int]int{}
	target := bigSize(t)
	space := []int{target/2 + 1, 2 * target, 1 << 40}[t.Intn(3)]
	val := 0
	check := func() {
		n := 0
		var order []string
		d.list(func(k K, v int) bool {
			s := id(k)
			if w, ok := m[s]; !ok || w != v {
				t.Failf("%s: Traversal gives %q=%d, want %d, present %v", d.name, s, v, w, ok)
			}
			order = append(order, s)
			n++
			return true
		})
		if n != len(m) || d.length != nil && d.length() != n {
			t.Failf("%s: Traversal gives %d entries, want %d", d.name, n, len(m))
		}
		seen := map[string]bool{}
		for i, s := range order {
			if seen[s] {
				t.Failf("%s: Traversal gives %q twice", d.name, s)
			}
			seen[s] = true
			if sorted != nil && i > 0 && !sorted(order[i-1], s) {
				t.Failf("%s: Traversal gives %q before %q", d.name, order[i-1], s)
			}
		}
		ks := d.keys()
		if len(ks) != n {
			t.Failf("%s: Keys() gives %d keys, want %d", d.name, len(ks), n)
		}
		for i, k := range ks {
			if sorted != nil && id(k) != order[i] || !seen[id(k)] {
				t.Failf("%s: Keys()[%d] = %q", d.name, i, id(k))
			}
			delete(seen, id(k))
		}
		t.Count("full comparisons")
		t.CountN("entries compared", 2*n)
		t.State(mix(uint64(n), hashStr(d.name)))
	}
	ops, budget := 0, 4*target+100
	t.Op("New", d.name, target, space)
	for ops < budget {
		cnt := 1 + t.Intn(max(1, target))
		bias := t.Intn(9)
		t.Op("phase", cnt, bias)
		for i := 0; i < cnt; i++ {
			ops++
			if i%1024 == 0 {
				t.Tick()
			}
			x := t.R.IntN(space)
			if len(m) == 0 || len(m) < target && t.Intn(8) < bias {
				val++
				k := mk(x)
				d.insert(k, val)
				if _, ok := m[id(k)]; !ok {
					where[x] = len(present)
					present = append(present, x)
				}
				m[id(k)] = val
			} else {
				if !t.Chance(5) {
					x = present[t.Intn(len(present))]
				}
				k := mk(x)
				_, had := m[id(k)]
				if g := d.erase(k); g != had {
					t.Failf("%s of %d: erasing %q = %v, want %v", d.name, len(m), id(k), g, had)
				}
				if had {
					delete(m, id(k))
					j, last := where[x], present[len(present)-1]
					present[j], where[last] = last, j
					present = present[:len(present)-1]
					delete(where, x)
				}
			}
			if i%4 == 0 && len(present) > 0 {
				y := present[t.Intn(len(present))]
				if t.Chance(4) {
					y = t.R.IntN(space)
				}
				k := mk(y)
				w, ok := m[id(k)]
				if v, err := d.get(k); v != w || ok != (err == nil) || !ok && !errors.Is(err, d.absent) {
					t.Failf("%s of %d: Get(%q) = %d, %v, want %d, present %v", d.name, len(m), id(k), v, err, w, ok)
				}
			}
		}
		if len(m) > 300 {
			t.Nontrivial()
		}
		if len(m) < 5000 || t.Chance(2) {
			check()
		}
	}
	check()
	if t.Chance(2) { // empty it
		t.Op("empty")
		for _, x := range present {
			if k := mk(x); !d.erase(k) {
				t.Failf("%s: erasing %q = false", d.name, id(k))
			}
		}
		m = map[string]int{}
		check()
	}
	t.CountN("operations in long histories", ops)
}

func runBigHamt(t *T) {
	var o []hamt.Option
	if t.Chance(2) {
		o = append(o, hamt.WithGoroutineSafe())
	}
	h := hamt.New[int](o...)
	style := t.Intn(4)
	mk := func(i int) hamt.Key {
		switch style {
		case 0:
			return hamt.Key(strconv.Itoa(i))
		case 1:
			var b [8]byte
			for j := range b {
				b[j] = byte(i >> (8 * j))
			}
			return hamt.Key(b[:])
		case 2:
			return hamt.Key(fmt.Sprintf("prefix/%d/suffix", i))
		}
		// a third of the keys collide in full with others
		z := string(make([]byte, i%3))
		return hamt.Key(string(zeroKey) + z + strconv.Itoa(i/3))
	}
	runDict(t, dict[hamt.Key]{"hash trie", h.Insert, h.Get, h.Erase, func(f func(hamt.Key, int) bool) { h.Traversal(f) }, h.Keys, nil, hamt.ErrorNotFound},
		mk, func(k hamt.Key) string { return string(k) }, nil)
}

func runBigSkip(t *T) {
	var o []skiplist.Option
	lev := []int{0, 0, 12, 20, 40, 64}[t.Intn(6)]
	if lev > 0 {
		o = append(o, skiplist.WithMaxLevel(lev))
	}
	if t.Chance(2) {
		o = append(o, skiplist.WithGoroutineSafe())
	}
	rev := t.Chance(3)
	sl := skiplist.New[string, int](func(a, b string) int {
		if rev {
			return refOrd(b, a)
		}
		return refOrd(a, b)
	}, o...)
	t.Op("levels", lev, rev)
	runDict(t, dict[string]{"skip list", sl.Insert, sl.Get, sl.Remove, func(f func(string, int) bool) { sl.Traversal(f) }, sl.Keys, sl.Len, skiplist.ErrorNotFound},
		func(i int) string { return strconv.Itoa(i * 7919 % (1 << 41)) }, func(s string) string { return s }, func(a, b string) bool {
			if rev {
				return a > b
			}
			return a < b
		})
}

// ---- C21 ----

func runBigBitmap(t *T) {
	size := bigSize(t)
	if t.Chance(2) {
		size *= 80
	}
	b := bitmap.New(uint64(size))
	size = (size + 7) / 8 * 8
	m := make([]byte, size/8)
	t.Op("New", size)
	bit := func(i int) bool { return m[i/8]>>(i%8)&1 == 1 }
	for ph := 0; ph < 8; ph++ {
		for i, n := 0, t.Intn(20000); i < n && size > 0; i++ {
			p := t.Intn(size)
			switch t.Intn(3) {
			case 0:
				if !b.Set(uint64(p)) {
					t.Failf("Set(%d) = false with size %d", p, size)
				}
				m[p/8] |= 1 << (p % 8)
			case 1:
				if !b.Unset(uint64(p)) {
					t.Failf("Unset(%d) = false with size %d", p, size)
				}
				m[p/8] &^= 1 << (p % 8)
			case 2:
				if b.IsSet(uint64(p)) != bit(p) {
					t.Failf("IsSet(%d) = %v with size %d", p, !bit(p), size)
				}
			}
		}
		for _, p := range []int{size, size + 1, size + 63, 2*size + 64, size + 1<<32} {
			if b.Set(uint64(p)) || b.IsSet(uint64(p)) || b.Unset(uint64(p)) {
				t.Failf("position %d is inside a bitmap of %d", p, size)
			}
		}
		if b.Size() != uint64(size) || !bytes.Equal(b.Data(), m) {
			t.Failf("Size() = %d, want %d, or Data() differs", b.Size(), size)
		}
		c := bitmap.NewFromData(append([]byte(nil), b.Data()...))
		if c.Size() != b.Size() {
			t.Failf("a bitmap made from Data() has size %d, want %d", c.Size(), size)
		}
		for i := 0; i < 200 && size > 0; i++ {
			if p := t.Intn(size); c.IsSet(uint64(p)) != bit(p) {
				t.Failf("a bitmap made from Data() differs at %d", p)
			}
		}
		t.Count("full comparisons")
		t.CountN("bits compared", size)
		n := t.Intn(2*size + 100)
		switch t.Intn(5) {
		case 0:
			n = landmark(t, 2*size+100)
		case 1:
			n = max(0, size+t.Intn(35)-17)
		}
		t.Op("Resize", n)
		b.Resize(uint64(n))
		n = (n + 7) / 8
		if n <= len(m) {
			m = m[:n:n]
			t.Count("shrunk")
		} else {
			m = append(append([]byte(nil), m...), make([]byte, n-len(m))...)
			t.Count("grown")
		}
		size = n * 8
		if size > 1000 {
			t.Nontrivial()
		}
		if t.Chance(8) {
			t.Op("Clear")
			b.Clear()
			m = make([]byte, len(m))
		}
	}
}

// ---- C22 ----

func runBigBloom(t *T) {
	n := bigSize(t)
	var f *bloom.BloomFilter
	desc := ""
	if t.Chance(2) {
		p := []float64{0.3, 0.01, 1e-6}[t.Intn(3)]
		f, desc = bloom.NewWithEstimates(uint64(n), p), fmt.Sprintf("estimates %d, %g", n, p)
	} else {
		m, k := 1+t.Intn(1<<24), 1+t.Intn(30)
		if t.Chance(3) {
			m = landmark(t, 1<<24)
		}
		if t.Chance(3) {
			k = landmark(t, 64)
		}
		f, desc = bloom.New(uint64(m), uint64(k)), fmt.Sprintf("m %d, k %d", m, k)
	}
	t.Op("New", desc, n)
	off := t.Intn(1 << 40)
	n = min(n, 20000)
	for i := 0; i < n; i++ {
		f.Add(strconv.Itoa(off + i))
		if i%1000 == 0 {
			t.Tick()
		}
	}
	d := f.Data()
	g := bloom.NewFromData(d)
	for i := 0; i < n; i++ {
		s := strconv.Itoa(off + i)
		if !f.Contains(s) || !g.Contains(s) {
			t.Failf("%s, %d values: %q was added; Contains says %v, the rebuilt filter %v", desc, n, s, f.Contains(s), g.Contains(s))
		}
		if i%1000 == 0 {
			t.Tick()
		}
	}
	if !bytes.Equal(g.Data(), d) {
		t.Failf("%s: the rebuilt filter exports other bytes", desc)
	}
	for i := 0; i < 300; i++ {
		s := "x" + strconv.Itoa(i)
		if f.Contains(s) != g.Contains(s) {
			t.Failf("%s: the rebuilt filter answers %v for %q", desc, g.Contains(s), s)
		}
	}
	t.CountN("membership tests of added values", n)
	if n > 100 {
		t.Nontrivial()
	}
}

// ---- C24 ----

func runBigKetama(t *T) {
	reps := []int{0, 1, 10, 97, 300, landmark(t, 300)}[t.Intn(6)]
	nodes := 1 + t.Intn([]int{20, 100, 300}[t.Intn(3)])
	if reps > 50 {
		nodes = 1 + nodes/5
	}
	if t.Chance(4) {
		reps, nodes = 1<<t.Intn(5), 1<<t.Intn(7) // numbers of positions that are powers of two
	}
	if t.Chance(60) {
		reps, nodes = 300, 230+t.Intn(60) // more than 2^16 positions
	}
	k := ketama.New(ketamaOpts(t, reps)...)
	name := func(i int) string { return fmt.Sprint("n", i) }
	t.Op("New", reps, nodes)
	have := map[string]bool{}
	cur := make([]string, 2000)
	read := func(change map[string]bool, add, first bool) {
		if k.Empty() != (len(have) == 0) {
			t.Failf("Empty = %v with %d nodes", k.Empty(), len(have))
		}
		for j := range cur {
			n, ok := k.Get("key" + strconv.Itoa(j))
			if ok != (len(have) > 0) || ok && !have[n] {
				t.Failf("Get = %q, %v with %d nodes, among them: %v", n, ok, len(have), have[n])
			}
			if n != cur[j] && !first && len(have) > 0 {
				if add && !change[n] || !add && !change[cur[j]] {
					t.Failf("key %d moved from %q to %q when other nodes were added (%v) or removed, %d nodes", j, cur[j], n, add, len(have))
				}
				t.Count("keys moved by a change of nodes")
				t.Nontrivial()
			}
			cur[j] = n
		}
		t.CountN("keys mapped", len(cur))
		t.Tick()
	}
	read(nil, true, true)
	for step := 0; step < 8; step++ {
		add := step == 0 || t.Chance(2)
		first := len(have) == 0
		change := map[string]bool{}
		var args []string
		for i, n := 0, 1+t.Intn(nodes); i < n; i++ {
			s := name(t.Intn(nodes))
			args = append(args, s)
			if have[s] != add {
				change[s] = true
			}
			if add {
				have[s] = true
			} else {
				delete(have, s)
			}
		}
		t.Op("change", add, len(args))
		if t.Chance(2) {
			if add {
				k.Add(args...)
			} else {
				k.Remove(args...)
			}
		} else {
			for _, s := range args {
				if add {
					k.Add(s)
				} else {
					k.Remove(s)
				}
				if add && k.Empty() {
					t.Failf("Empty after a node was added to %d", len(have))
				}
				if n, ok := k.Get(s); add && (!ok || !have[n]) {
					t.Failf("Get = %q, %v after %q was added", n, ok, s)
				}
			}
		}
		read(change, add, first)
	}
	o := ketama.New(ketamaOpts(t, reps)...)
	for i := nodes - 1; i >= 0; i-- {
		if have[name(i)] {
			o.Add(name(i))
		}
	}
	for j := range cur {
		if n, _ := o.Get("key" + strconv.Itoa(j)); n != cur[j] {
			t.Failf("a ring of the same %d nodes maps key %d to %q, want %q", len(have), j, n, cur[j])
		}
	}
	t.Count("rings compared")
}

// ---- C02 to C06 on large ranges ----

func bigElems(t *T) []E {
	n := 500 + t.Intn(4000)
	if t.Chance(6) {
		n = 20000 + t.Intn(20000)
	}
	if t.Chance(25) {
		n = 65000 + t.Intn(70000) // more than 16 bits
		t.Count("ranges of more than 2^16 elements")
	}
	if t.Chance(3) {
		n = landmark(t, 40000)
	}
	es := make([]E, n)
	k := []int{50, n, 1 << 40}[t.Intn(3)]
	for i := range es {
		es[i] = E{t.R.IntN(k) - k/2, i}
	}
	// bands that are sorted, reversed or constant
	if k >= n {
		for j := t.Intn(4); j > 0; j-- {
			lo := t.Intn(n)
			hi := lo + t.Intn(n-lo) + 1
			s := es[lo:hi]
			switch t.Intn(3) {
			case 0:
				gosort.Slice(s, func(a, b int) bool { return s[a].K < s[b].K })
			case 1:
				gosort.Slice(s, func(a, b int) bool { return s[a].K > s[b].K })
			case 2:
				s = s[:min(len(s), 60)]
				for i := range s {
					s[i].K = s[0].K
				}
			}
		}
	}
	for i := range es {
		es[i].ID = i
	}
	return es
}

func bigRange(t *T, n int) (int, int) {
	if t.Chance(2) || n < 4 {
		return 0, n
	}
	lo := t.Intn(n / 4)
	if t.Chance(3) {
		return lo, lo + landmark(t, n-lo)
	}
	return lo, n - t.Intn(n/4)
}

func runBigSort(t *T) {
	es := bigElems(t)
	lo, hi := bigRange(t, len(es))
	cname, cmp := "natural", comparator.Comparator[E](cmpK)
	if t.Chance(3) {
		cname, cmp = "reverse", comparator.Reverse[E](cmpK)
	}
	checkSort(t, t.Intn(5), es, lo, hi, cname, cmp, false)
	checkSort(t, t.Intn(5), es, lo, hi, cname, cmp, true)
}

func runBigSearch(t *T) {
	es := bigElems(t)
	refStable(es, cmpK)
	lo, hi := bigRange(t, len(es))
	for j := 0; j < 3; j++ {
		checkSearch(t, t.Intn(5), es, lo, hi, "natural", cmpK, E{es[t.Intn(len(es))].K + t.Intn(3) - 1, -1})
	}
}

func runBigNth(t *T) {
	es := bigElems(t)
	lo, hi := bigRange(t, len(es))
	for j := 0; j < 2; j++ {
		checkNth(t, t.Intn(5), es, lo, hi, t.Intn(hi-lo), "natural", cmpK)
	}
}

// runBigPerm: the successor of a long arrangement, whose tail decides it.
func runBigPerm(t *T) {
	n := 300 + t.Intn(3000)
	if t.Chance(3) {
		n = landmark(t, 4500)
	}
	if t.Chance(200) {
		n += 65000
	}
	es := make([]E, n)
	k := []int{2, 10, n}[t.Intn(3)]
	for i := range es {
		es[i] = E{t.Intn(k), i}
	}
	tail := t.Intn(n)
	s := es[n-tail:]
	gosort.Slice(s, func(a, b int) bool { return s[a].K > s[b].K })
	for i := range es {
		es[i].ID = i
	}
	c := makeSeq(t, t.Intn(5), es, 0, n, true)
	t.Op("NextPermutation", n, tail, k)
	more := libNextPermutation(c.at(0), c.at(n), cmpK)
	after := c.get()
	checkOutside(t, "NextPermutation", es, after, 0, n)
	// the successor: the last ascent, exchanged with the least greater one after it
	i := n - 2
	for i >= 0 && es[i].K >= es[i+1].K {
		i--
	}
	if more != (i >= 0) {
		t.Failf("NextPermutation of %d elements = %v, want %v", n, more, i >= 0)
	}
	want := make([]int, n)
	for j := range es {
		want[j] = es[j].K
	}
	if i >= 0 {
		rest := append([]int(nil), want[i:]...)
		gosort.Ints(rest)
		p := gosort.Search(len(rest), func(j int) bool { return rest[j] > want[i] })
		want[i] = rest[p]
		copy(want[i+1:], append(rest[:p:p], rest[p+1:]...))
		t.Nontrivial()
	}
	for j := range want {
		if after[j].K != want[j] {
			t.Failf("NextPermutation of %d elements, the last %d of them falling: element %d is %d, want %d", n, tail, j, after[j].K, want[j])
		}
	}
	t.Count("long permutations")
}

func runBigAlgos(t *T) {
	es := bigElems(t)
	n := len(es)
	if t.Chance(4) { // one key nearly everywhere
		for i := range es {
			es[i].K = min(t.Intn(50), 1)
		}
	}
	lo, hi := bigRange(t, n)
	c := makeSeq(t, t.Intn(5), es, lo, hi, true)
	t.Op("algorithms on a long range", n, lo, hi)
	first, last := c.at(lo), c.at(hi)
	base := c.at(0).Position()
	v := es[lo+t.Intn(hi-lo)]
	want, cnt := -1, 0
	mx, mn := lo, lo
	for i := lo; i < hi; i++ {
		if es[i].K == v.K {
			if want < 0 {
				want = i
			}
			cnt++
		}
		if es[i].K > es[mx].K {
			mx = i
		}
		if es[i].K < es[mn].K {
			mn = i
		}
	}
	at := func(what string, it iterator.ConstIterator[E], i int) {
		if g := it.(ra).Position() - base; g != i {
			t.Failf("%s in [%d,%d) is at %d, want %d", what, lo, hi, g, i)
		}
	}
	at("Find", libFind(first, last, v, cmpK), want)
	if g := libCount(first, last, v, cmpK); g != cnt {
		t.Failf("Count in [%d,%d) = %d, want %d", lo, hi, g, cnt)
	}
	at("MaxElement", libMaxElement(first, last, cmpK), mx)
	at("MinElement", libMinElement(first, last, cmpK), mn)
	checkArgs(t, "the algorithms", first, last, base+lo, base+hi)
	if !sameElems(es, c.get()) {
		t.Failf("a non-modifying algorithm changed the container")
	}
	libReverse(first, last)
	after := c.get()
	checkOutside(t, "Reverse", es, after, lo, hi)
	for i := lo; i < hi; i++ {
		if after[i] != es[lo+hi-1-i] {
			t.Failf("Reverse of [%d,%d) put %v at %d, want %v", lo, hi, after[i], i, es[lo+hi-1-i])
		}
	}
	t.Count("long ranges")
	t.Nontrivial()
}

// ---- C15: maps with other key and value types ----

func bigMapTypes[V any](t *T, k kind[V]) {
	var o []treemap.Option
	if t.Chance(2) {
		o = append(o, treemap.WithGoroutineSafe())
	}
	m := treemap.New[string, V](comparator.StringComparator, o...)
	mm := treemap.NewMultiMap[string, V](comparator.StringComparator, o...)
	ref := map[string][]V{}
	next := 0
	space := 1 + t.Intn(60)
	for i, n := 0, 50+t.Intn(200); i < n; i++ {
		s := fmt.Sprintf("%x", t.Intn(space))
		if s == "0" {
			s = ""
		}
		if t.Intn(5) < 3 {
			x := k.mk(bigVal(t, &next))
			t.Op("Insert", s)
			m.Insert(s, x)
			mm.Insert(s, x)
			ref[s] = append(ref[s], x)
		} else {
			t.Op("Erase", s)
			m.Erase(s)
			mm.Erase(s)
			delete(ref, s)
		}
		g := ref[s]
		v, err := m.Get(s)
		w, err2 := mm.Get(s)
		if (err == nil) != (len(g) > 0) || (err2 == nil) != (len(g) > 0) || m.Contains(s) != (len(g) > 0) || mm.Contains(s) != (len(g) > 0) {
			t.Failf("Get(%q): %v, %v for %d entries", s, err, err2, len(g))
		}
		if len(g) > 0 && (!k.eq(v, g[len(g)-1]) || !k.eq(w, g[0])) {
			t.Failf("Get(%q) = %v and %v, want %v and %v", s, v, w, g[len(g)-1], g[0])
		}
		if len(ref) > 2 {
			t.Nontrivial()
		}
	}
	var ks []string
	tot := 0
	for s, g := range ref {
		ks = append(ks, s)
		tot += len(g)
	}
	gosort.Strings(ks)
	if m.Size() != len(ks) || mm.Size() != tot {
		t.Failf("sizes %d and %d, want %d and %d", m.Size(), mm.Size(), len(ks), tot)
	}
	i := 0
	m.Traversal(func(s string, v V) bool {
		if i >= len(ks) || s != ks[i] || !k.eq(v, ref[s][len(ref[s])-1]) {
			t.Failf("Traversal gives %q=%v in place %d", s, v, i)
		}
		i++
		return true
	})
	i = 0
	it := mm.First()
	for _, s := range ks {
		for _, x := range ref[s] {
			if !it.IsValid() || it.Key() != s || !k.eq(it.Value(), x) {
				t.Failf("multimap: the entry in place %d is not %q=%v", i, s, x)
			}
			it.Next()
			i++
		}
	}
	if it.IsValid() {
		t.Failf("multimap: more than %d entries", i)
	}
	t.Count("maps of " + k.name)
}

var (
	runBigDeque      = bigKinds("deque", bigDeque[int], bigDeque[string], bigDeque[*int], bigDeque[any], bigDeque[wideElem], bigDeque[struct{}], bigDeque[[]int], bigDeque[float64], bigDeque[byte])
	runBigVector     = bigKinds("vector", bigVector[int], bigVector[string], bigVector[*int], bigVector[any], bigVector[wideElem], bigVector[struct{}], bigVector[[]int], bigVector[float64], bigVector[byte])
	runBigArray      = bigKinds("array", bigArray[int], bigArray[string], bigArray[*int], bigArray[any], bigArray[wideElem], bigArray[struct{}], bigArray[[]int], bigArray[float64], bigArray[byte])
	runBigAdapters   = bigKinds("adapter", bigQueueStack[int], bigQueueStack[string], bigQueueStack[*int], bigQueueStack[any], bigQueueStack[wideElem], bigQueueStack[struct{}], bigQueueStack[[]int], bigQueueStack[float64], bigQueueStack[byte])
	runBigBidlist    = bigKinds("bidlist", bigBidlist[int], bigBidlist[string], bigBidlist[*int], bigBidlist[any], bigBidlist[wideElem], bigBidlist[struct{}], bigBidlist[[]int], bigBidlist[float64], bigBidlist[byte])
	runBigSimplelist = bigKinds("simplelist", bigSimplelist[int], bigSimplelist[string], bigSimplelist[*int], bigSimplelist[any], bigSimplelist[wideElem], bigSimplelist[struct{}], bigSimplelist[[]int], bigSimplelist[float64], bigSimplelist[byte])
	runMapTypes      = bigKinds("map", bigMapTypes[int], bigMapTypes[string], bigMapTypes[*int], bigMapTypes[any], bigMapTypes[wideElem], bigMapTypes[struct{}], bigMapTypes[[]int], bigMapTypes[float64], bigMapTypes[byte])
)

const bigRule = "; suite large: objects grown to up to 120000 elements and changed in phases"

// addLarge registers the suites of large objects and other element types.
func addLarge() {
	for _, a := range []struct {
		id              string
		quick, thorough int
		run             func(*T)
		rule            string
	}{
		{"C02", 700, 10000, runBigSort, "; suite large: ranges of up to 135000 elements with sorted, falling and constant bands"},
		{"C03", 700, 10000, runBigSearch, "; suite large: ranges of up to 135000 elements"},
		{"C04", 700, 10000, runBigNth, "; suite large: ranges of up to 135000 elements with sorted, falling and constant bands"},
		{"C05", 8000, 100000, runBigPerm, "; suite large: 300-68000 elements with a falling tail"},
		{"C06", 2000, 30000, runBigAlgos, "; suite large: ranges of up to 135000 elements"},
		{"C07", 1000, 20000, runBigDeque, bigRule + ", of nine element types (numbers, strings, pointers, interfaces, a large and an empty struct, slices, floats with NaN, bytes)"},
		{"C07", 20000, 200000, onSmall(runBigDeque), "; suite types: up to 150 elements of the same nine types"},
		{"C08", 1000, 20000, runBigVector, bigRule + ", of nine element types"},
		{"C08", 20000, 200000, onSmall(runBigVector), "; suite types: up to 150 elements of the same nine types"},
		{"C09", 900, 20000, runBigArray, "; suite large: arrays and slices of up to 120000 elements of nine types"},
		{"C09", 20000, 200000, onSmall(runBigArray), "; suite types: up to 150 elements of the same nine types"},
		{"C10", 600, 10000, runBigBidlist, "; suite large: lists of up to 68000 nodes of nine element types, changed in phases"},
		{"C10", 20000, 200000, onSmall(runBigBidlist), "; suite types: up to 150 elements of the same nine types"},
		{"C11", 600, 10000, runBigSimplelist, "; suite large: lists of up to 68000 nodes of nine element types, changed in phases"},
		{"C11", 20000, 200000, onSmall(runBigSimplelist), "; suite types: up to 150 elements of the same nine types"},
		{"C12", 2000, 30000, runBigAdapters, bigRule + ", of nine element types"},
		{"C12", 20000, 200000, onSmall(runBigAdapters), "; suite types: up to 150 elements of the same nine types"},
		{"C13", 1500, 20000, runBigPQ, bigRule},
		{"C14", 500, 6000, runBigOrd(kTreeNodes), "; suite large: trees grown to up to 86000 entries and changed in phases"},
		{"C15", 700, 8000, runBigOrd(kMap, kMultiMap), "; suite large: maps and multimaps grown to up to 86000 entries and changed in phases"},
		{"C15", 6000, 60000, runMapTypes, "; suite types: string keys and nine value types"},
		{"C16", 700, 8000, runBigOrd(kSet, kMultiSet), "; suite large: sets and multisets grown to up to 86000 elements and changed in phases"},
		{"C17", 1500, 20000, runBigAlgebra, "; suite large: sets of up to 75000 elements"},
		{"C19", 800, 10000, runBigHamt, bigRule},
		{"C20", 800, 10000, runBigSkip, bigRule},
		{"C21", 1500, 20000, runBigBitmap, "; suite large: up to ten million bits"},
		{"C22", 400, 5000, runBigBloom, "; suite large: filters for up to 120000 values or of up to 2^24 bits"},
		{"C24", 600, 10000, runBigKetama, "; suite large: up to 300 nodes or 300 replicas"},
		{"C18", 800, 10000, runBigStability, "; suite large: up to 40 iterators or nodes held through phases of growth and decline of a container of up to 6000 entries"},
		{"C23", 800, 8000, runBigBloomRate, "; suite rates: larger, rebuilt, partly filled filters of up to 64 functions and with bits a power of two, odd or a multiple of 64"},
		{"C23", 800, 8000, runLongHashes, "; suite long: sequences of up to 66000 hash values, and the balance of their bits"},
		{"C23", 1600, 16000, runHashPairs, "; suite pairs: chi-square tests of pairs of values of 3000 seeds, and of the first values of seeds alike"},
		{"C25", 800, 8000, runBigBalance, "; suite large: up to 400 nodes or 2000 replicas, five styles of names; each share within 8 standard deviations of a fair one and the variance of all within three times what independent positions give"},
		{"C29", 6000, 60000, runBigIterators, "; suite large: 300-73000 elements, moved many steps at a time"},
		{"C29", 40000, 400000, runIterKinds, "; suite types: nine element types"},
		{"C30", 3000, 30000, runBigVisitors, "; suite large: 200-73000 elements"},
		{"C30", 60000, 600000, runListTypes, "; suite types: elements of fourteen types, among them structs and ones with an empty format, a formatter or a Go syntax of their own"},
		{"C32", 360, 4000, runWaves, "; suite waves: 16 containers of pointers to 512-byte elements, filled to 300-3200 and emptied in different ways several times; the live heap may not exceed 2.5 fillings"},
		{"C32", 320, 4000, runFlow, "; suite flow: the same containers kept at a level of 60-5200 elements while 20000 or more pass through"},
	} {
		p := findProp(a.id)
		name := "large"
		if i := strings.LastIndex(a.rule, "suite "); i >= 0 {
			name = a.rule[i+6 : i+strings.Index(a.rule[i:], ":")]
		}
		p.Suites = append(p.Suites, Suite{Name: name, Quick: a.quick, Thorough: a.thorough, Run: a.run})
		p.Rule += a.rule
	}
}
