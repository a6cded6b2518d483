package main

import (
	"bytes"
	"fmt"
	"strconv"

	"github.com/liyue201/gostl/algorithm/hash"
	"github.com/liyue201/gostl/ds/bloomfilter"
	"github.com/liyue201/gostl/ds/set"
)

// Endurance: one small object lives through hundreds of thousands or millions
// of operations, all of it checked after each of them. What an object keeps
// across operations (counters, serial numbers, spare nodes, lazily rebuilt
// parts) gets far beyond what short histories and even large contents bring
// it to.

// longer makes histories of run n times as long as usual, on one object.
func longer(run func(*T), n int) func(*T) {
	return func(t *T) {
		t.long = n
		if t.Tier != "quick" {
			t.long = 3 * n
		}
		t.eager = t.Case>>1&1 == 1
		t.bursts = t.Case>>2&1 == 1
		t.Count("long histories")
		t.CountN("operations in long histories", t.long)
		run(t)
	}
}

// oneOf runs one of several after another.
func oneOf(rs ...func(*T)) func(*T) {
	return func(t *T) {
		c := t.Case
		t.Case = c / len(rs)
		rs[c%len(rs)](t)
		t.Case = c
	}
}

func longBloom(t *T) {
	n := 150000
	if t.Tier != "quick" {
		n = 400000
	}
	m := []uint64{1 << 22, 1<<22 + 17, 100000, 1 << 15, 3000, 1 << 18, 20000, 500000}[t.Case%8]
	k := uint64(1 + t.Intn(3))
	if m < 1<<18 {
		k = 1 // some bits are still clear when much has been added
	}
	var opts []bloom.Option
	if t.Chance(2) {
		opts = append(opts, bloom.WithGoroutineSafe())
	}
	f := bloom.New(m, k, opts...)
	t.Op("New", m, k)
	val := func(i int) string { return strconv.Itoa(i*7919) + "/" + strconv.Itoa(i) }
	for i := 0; i < n; i++ {
		v := val(i)
		f.Add(v)
		if !f.Contains(v) {
			t.Failf("filter of %d bits: %q was just added (addition %d), Contains says no", m, v, i+1)
		}
		if w := val(t.Intn(i + 1)); !f.Contains(w) {
			t.Failf("filter of %d bits: %q was added, Contains says no after %d additions", m, w, i+1)
		}
		t.Tick()
	}
	d := f.Data()
	g := bloom.New(m, k)
	for i := n - 1; i >= 0; i-- {
		if !f.Contains(val(i)) {
			t.Failf("filter of %d bits: %q was added, Contains says no after %d additions", m, val(i), n)
		}
		g.Add(val(i))
		t.Tick()
	}
	if !bytes.Equal(d, g.Data()) {
		t.Failf("the filter depends on the order of %d additions", n)
	}
	t.CountN("values added to long-lived filters", n)
	t.Nontrivial()
}

func longHashes(t *T) {
	// the same seed again and again: one and the same sequence
	n := 150000
	seed := []byte(hostileString(t))
	want := hash.GenHashInts(seed, 5)
	t.Op("GenHashInts", string(seed), 5)
	for i := 0; i < n; i++ {
		k := 1 + i%5
		got := hash.GenHashInts(seed, k)
		if len(got) != k || got[0] != want[0] || got[k-1] != want[k-1] {
			t.Failf("call %d gave %x for %d hash values of %q, the first call %x", i, got, k, seed, want)
		}
		t.Tick()
	}
	t.Nontrivial()
}

func longAlgebra(t *T) {
	n := 90000
	if t.Tier != "quick" {
		n = 300000
	}
	cname, cmp := pickCmp(t)
	var opts []set.Option
	if t.Chance(2) {
		opts = append(opts, set.WithGoroutineSafe())
	}
	a, b := set.New[E](cmp, opts...), set.New[E](cmp, opts...)
	t.Op("New", cname)
	var ma, mb []E
	find := func(m []E, e E) int {
		for i := range m {
			if cmp(m[i], e) == 0 {
				return i
			}
		}
		return -1
	}
	list := func(s *set.Set[E]) (l []E) {
		s.Traversal(func(e E) bool { l = append(l, e); return true })
		return
	}
	toggle := func(s *set.Set[E], m []E, e E) []E {
		i := find(m, e)
		if i >= 0 {
			s.Erase(e)
			return eraseRange(m, i, i+1)
		}
		s.Insert(e)
		m = append(m, e)
		refStable(m, cmp)
		return m
	}
	favourite := t.Case % 4
	for i := 0; i < n; i++ {
		if t.Intn(8) == 0 {
			e := E{t.Intn(9), i}
			if t.Intn(2) == 0 {
				ma = toggle(a, ma, e)
			} else {
				mb = toggle(b, mb, e)
			}
		}
		op := favourite
		if op == 3 || t.Intn(10) == 0 {
			op = t.Intn(3)
		}
		var r *set.Set[E]
		var want []E
		switch op {
		case 0:
			r = a.Intersect(b)
			for _, e := range ma {
				if find(mb, e) >= 0 {
					want = append(want, e)
				}
			}
		case 1:
			r = a.Union(b)
			want = append(want, ma...)
			for _, e := range mb {
				if find(ma, e) < 0 {
					want = append(want, e)
				}
			}
			refStable(want, cmp)
		default:
			r = a.Diff(b)
			for _, e := range ma {
				if find(mb, e) < 0 {
					want = append(want, e)
				}
			}
		}
		if got := list(r); !sameElems(got, want) || r.Size() != len(want) {
			t.Failf("%s (%s) number %d of %s and %s = %s, want %s", []string{"Intersect", "Union", "Diff"}[op], cname, i, showE(ma), showE(mb), showE(got), showE(want))
		}
		if i%64 == 0 && (!sameElems(list(a), ma) || !sameElems(list(b), mb)) {
			t.Failf("an operand changed")
		}
		if len(want) > 1 {
			t.Nontrivial()
		}
		t.Tick()
	}
	t.CountN("combinations of two long-lived sets", n)
}

func addEndurance() {
	for _, a := range []struct {
		id              string
		quick, thorough int
		ops             int
		run             func(*T)
	}{
		{"C07", 16, 80, 2500000, runDeque},
		{"C08", 16, 80, 4000000, runVector},
		{"C09", 16, 64, 400000, oneOf(runArray, runSliceWrap)},
		{"C10", 16, 80, 4000000, runBidlist},
		{"C11", 16, 80, 4000000, runSimplelist},
		{"C12", 32, 160, 1500000, oneOf(runQueue, runStack)},
		{"C13", 16, 80, 1000000, oneOf(runPQ, runHeap)},
		{"C14", 16, 80, 700000, runOrd(kTree, kTreeNodes)},
		{"C15", 16, 80, 700000, runOrd(kMap, kMultiMap)},
		{"C16", 16, 80, 700000, runOrd(kSet, kMultiSet)},
		{"C17", 8, 80, 0, longAlgebra},
		{"C18", 24, 120, 500000, runStability},
		{"C19", 16, 80, 500000, runHamt},
		{"C20", 16, 80, 1000000, runSkiplist},
		{"C21", 16, 80, 2000000, runBitmap},
		{"C22", 8, 40, 0, longBloom},
		{"C23", 8, 40, 0, longHashes},
		{"C24", 8, 40, 200000, runKetama},
		{"C29", 22, 110, 1000000, func(t *T) { walkIterators(t, 2+t.Intn(6)) }},
		{"C30", 22, 110, 150000, func(t *T) { visitAll(t, t.Intn(9)) }},
	} {
		p := findProp(a.id)
		run, what := a.run, ""
		if a.ops > 0 {
			run = longer(a.run, a.ops)
			what = fmt.Sprintf("; suite endurance: one small object through %d operations (thorough three times as many), half of them with the rare operations frequent, half with one operation now and then repeated up to 300 or 65536 times", a.ops)
		} else {
			what = "; suite endurance: the same small objects used 90000-150000 times (thorough 300000 or more)"
		}
		p.Suites = append(p.Suites, Suite{Name: "endurance", Quick: a.quick, Thorough: a.thorough, Run: run})
		p.Rule += what
	}
}
