package main

import (
	"fmt"

	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/utils/comparator"
	"github.com/liyue201/gostl/utils/iterator"
)

// ---- C02 sorting ----

func checkSort(t *T, kind int, es []E, lo, hi int, cname string, cmp comparator.Comparator[E], stable bool) {
	c := makeSeq(t, kind, es, lo, hi, true)
	base := c.at(0).Position()
	what := "Sort"
	if stable {
		what = "Stable"
	}
	t.Op(what, c.name, cname, lo, hi, showE(es))
	first, last := c.at(lo), c.at(hi)
	ncmp := 0
	cc := func(a, b E) int { ncmp++; return cmp(a, b) }
	if stable {
		libStable(first, last, comparator.Comparator[E](cc))
	} else {
		libSort(first, last, comparator.Comparator[E](cc))
	}
	checkArgs(t, what, first, last, base+lo, base+hi)
	after := c.get()
	checkOutside(t, what, es, after, lo, hi)
	want := append([]E(nil), es[lo:hi]...)
	refStable(want, cmp)
	moved := !sameElems(want, es[lo:hi])
	ties := false
	for i := lo; i < hi; i++ {
		if i+1 < hi && cmp(after[i], after[i+1]) > 0 {
			t.Failf("%s(%s) left %s: elements %d and %d are out of order", what, cname, showE(after[lo:hi]), i, i+1)
		}
		if i+1 < hi && cmp(after[i], after[i+1]) == 0 {
			ties = true
		}
		if stable && after[i] != want[i-lo] {
			t.Failf("Stable(%s) of %s gave %s, want %s", cname, showE(es[lo:hi]), showE(after[lo:hi]), showE(want))
		}
	}
	t.CountN("comparisons observed", ncmp)
	t.Count(what + " on " + c.name)
	if moved {
		t.Count("inputs that were out of order")
	}
	if ties {
		t.Count("inputs with ties")
	}
	if hi-lo > 1 {
		t.Nontrivial()
	}
	if hi == lo {
		t.Count("empty ranges")
	}
}

func runSort(t *T) {
	es := genElems(t, pickSize(t))
	lo, hi := pickRange(t, len(es))
	cname, cmp := pickCmp(t)
	kind := t.Intn(5)
	checkSort(t, kind, es, lo, hi, cname, cmp, false)
	checkSort(t, t.Intn(5), es, lo, hi, cname, cmp, true)
}

// An adversary is a total order that is decided only while it is asked about,
// so that whatever the algorithm picks as a pivot turns out to be extreme
// (McIlroy, "A killer adversary for quicksort"). Its answers never contradict
// each other, so the algorithm must be right about the order they settle on.
type adversary struct {
	val              []int
	gas, next, asked int
	cand             int
}

func newAdversary(n int) *adversary {
	a := &adversary{val: make([]int, n), gas: n, cand: -1}
	for i := range a.val {
		a.val[i] = n
	}
	return a
}

func (a *adversary) cmp(x, y E) int {
	a.asked++
	if x.ID == y.ID {
		return 0
	}
	if a.val[x.ID] == a.gas && a.val[y.ID] == a.gas {
		f := y.ID
		if x.ID == a.cand {
			f = x.ID
		}
		a.val[f] = a.next
		a.next++
	}
	if a.val[x.ID] == a.gas {
		a.cand = x.ID
	} else if a.val[y.ID] == a.gas {
		a.cand = y.ID
	}
	return refOrd(a.val[x.ID], a.val[y.ID])
}

// settle fixes the values nobody asked to tell apart.
func (a *adversary) settle() {
	for i := range a.val {
		if a.val[i] == a.gas && a.next < a.gas {
			a.val[i] = a.next
			a.next++
		}
	}
}

// hardElems gives an arrangement of n elements that is bad for the pivots of
// the algorithm run.
func hardElems(t *T, n int, run func(first, last ra, cmp comparator.Comparator[E])) []E {
	es := make([]E, n)
	for i := range es {
		es[i] = E{0, i}
	}
	switch t.Intn(4) {
	case 0: // all equal but for one or two
		for j := 1 + t.Intn(2); j > 0 && n > 0; j-- {
			es[t.Intn(n)].K = t.Intn(3) - 1
		}
	case 1: // runs
		k, d := 0, 1
		for i := range es {
			if t.Chance(1 + n/4) {
				d = t.Intn(3) - 1
			}
			k += d
			es[i].K = k
		}
	default:
		a := newAdversary(n)
		c := makeSeq(t, 4, es, 0, n, true)
		t.Op("adversary", n)
		run(c.at(0), c.at(n), a.cmp)
		a.settle()
		div := []int{1, 1, 2, 3, 8}[t.Intn(5)]
		for i := range es {
			es[i].K = a.val[i] / div
		}
		t.Count("adversarial arrangements")
		t.CountN("comparisons the adversary answered", a.asked)
	}
	return es
}

func hardSize(t *T) int {
	if t.Chance(8) {
		return 64 + t.Intn(200)
	}
	return 3 + t.Intn(62)
}

// pad puts es into the middle of other elements.
func pad(t *T, es []E) (all []E, lo, hi int) {
	lo = t.Intn(3) * t.Intn(8)
	hi = lo + len(es)
	all = make([]E, hi+t.Intn(3)*t.Intn(8))
	for i := range all {
		if i >= lo && i < hi {
			all[i].K = es[i-lo].K
		} else {
			all[i].K = t.Intn(2*len(es)+1) - len(es)/2
		}
		all[i].ID = i
	}
	return
}

// runSortHard gives Sort arrangements made against it.
func runSortHard(t *T) {
	n := hardSize(t)
	es := hardElems(t, n, func(first, last ra, cmp comparator.Comparator[E]) { libSort(first, last, cmp) })
	all, lo, hi := pad(t, es)
	checkSort(t, t.Intn(5), all, lo, hi, "natural", cmpK, false)
	checkSort(t, t.Intn(5), all, lo, hi, "reverse", comparator.Reverse[E](cmpK), false)
	checkSort(t, t.Intn(5), all, lo, hi, "natural", cmpK, true)
	// the adversary itself, live
	a := newAdversary(len(all))
	c := makeSeq(t, t.Intn(5), all, lo, hi, true)
	t.Op("Sort against a live adversary", lo, hi)
	libSort(c.at(lo), c.at(hi), comparator.Comparator[E](a.cmp))
	after := c.get()
	checkOutside(t, "Sort", all, after, lo, hi)
	a.settle()
	for i := lo; i+1 < hi; i++ {
		if a.val[after[i].ID] > a.val[after[i+1].ID] {
			t.Failf("Sort of %d elements under an order settled on the way leaves element %d greater than the next", hi-lo, i-lo)
		}
	}
}

// smallSeqs enumerates every sequence over {0..k-1} of length 0..maxLen,
// as total(k,maxLen) cases.
func smallTotal(k, maxLen int) int {
	n, p := 0, 1
	for l := 0; l <= maxLen; l++ {
		n += p
		p *= k
	}
	return n
}

func smallSeq(k, idx int) []E {
	p, l := 1, 0
	for idx >= p {
		idx -= p
		p *= k
		l++
	}
	es := make([]E, l)
	for i := range es {
		es[i] = E{idx % k, i}
		idx /= k
	}
	return es
}

// Every case of the small suites takes a block of sequences.
const smallBlock = 64

func runSortSmall(t *T) {
	tot := smallTotal(4, 6)
	for i := t.Case * smallBlock; i < min(tot, (t.Case+1)*smallBlock); i++ {
		es := smallSeq(4, i)
		checkSort(t, i%5, es, 0, len(es), "natural", cmpK, false)
		checkSort(t, (i+1)%5, es, 0, len(es), "natural", cmpK, true)
	}
}

func blocks(n int) int { return (n + smallBlock - 1) / smallBlock }

// ---- C03 binary searches ----

func checkSearch(t *T, kind int, es []E, lo, hi int, cname string, cmp comparator.Comparator[E], val E) {
	c := makeSeq(t, kind, es, lo, hi, false)
	base := c.at(0).Position()
	t.Op("search", c.name, cname, lo, hi, val.K, showE(es))
	lb, ub := hi, hi
	for i := hi - 1; i >= lo; i-- {
		if cmp(es[i], val) >= 0 {
			lb = i
		}
		if cmp(es[i], val) > 0 {
			ub = i
		}
	}
	first, last := c.at(lo), c.at(hi)
	if got, want := libBinarySearch(first, last, val, cmp), lb < ub; got != want {
		t.Failf("BinarySearch(%s, [%d,%d), %v) in %s = %v, want %v", c.name, lo, hi, val, showE(es), got, want)
	}
	checkArgs(t, "BinarySearch", first, last, base+lo, base+hi)
	l := libLowerBound(first, last, val, cmp)
	checkArgs(t, "LowerBound", first, last, base+lo, base+hi)
	u := libUpperBound(first, last, val, cmp)
	checkArgs(t, "UpperBound", first, last, base+lo, base+hi)
	if l.Position() != base+lb || !l.Equal(c.at(lb)) {
		t.Failf("LowerBound(%s, [%d,%d), %v) in %s is at %d, want %d", c.name, lo, hi, val, showE(es), l.Position()-base, lb)
	}
	if u.Position() != base+ub || !u.Equal(c.at(ub)) {
		t.Failf("UpperBound(%s, [%d,%d), %v) in %s is at %d, want %d", c.name, lo, hi, val, showE(es), u.Position()-base, ub)
	}
	// the results are iterators of their own
	if lb < hi {
		l.Next()
	}
	if ub < hi {
		u.Next()
	}
	checkArgs(t, "advancing the result", first, last, base+lo, base+hi)
	if !sameElems(es, c.get()) {
		t.Failf("a search changed the container")
	}
	if lb < ub {
		t.Count("searches that hit")
	} else {
		t.Count("searches that miss")
	}
	if lb == hi {
		t.Count("values above the range")
	}
	if ub == lo {
		t.Count("values below the range")
	}
	if hi-lo > 0 {
		t.Nontrivial()
	}
}

func runSearch(t *T) {
	es := genElems(t, pickSize(t))
	lo, hi := pickRange(t, len(es))
	cname, cmp := pickCmp(t)
	refStable(es[lo:hi], cmp)
	vals := []E{{1 << 50, -1}, {-1 << 50, -1}, {0, -1}}
	for i := 0; i < 6 && lo < hi; i++ {
		e := es[lo+t.Intn(hi-lo)]
		vals = append(vals, E{e.K, -1}, E{e.K + 1, -1}, E{e.K - 1, -1})
	}
	if lo < hi {
		vals = append(vals, es[lo], es[hi-1])
	}
	for _, v := range vals {
		checkSearch(t, t.Intn(5), es, lo, hi, cname, cmp, v)
	}
}

func runSearchSmall(t *T) {
	// non-decreasing sequences over {0,2,4} of every length 0..10, all probes
	n := t.Case % 11
	for a := 0; a <= n; a++ {
		for b := a; b <= n; b++ {
			es := make([]E, n)
			for i := range es {
				es[i].ID = i
				if i >= a {
					es[i].K = 2
				}
				if i >= b {
					es[i].K = 4
				}
			}
			for v := -1; v <= 5; v++ {
				checkSearch(t, (a+b+v+1)%5, es, 0, n, "natural", cmpK, E{v, -1})
			}
		}
	}
}

// virtual is a huge sorted range whose elements are computed from the position.
type virtual struct{ step, off, max, reads int }

type virtIter struct {
	v   *virtual
	pos int
}

func (i *virtIter) IsValid() bool { return i.pos >= 0 && i.pos < i.v.max }
func (i *virtIter) Value() E {
	if i.v.reads++; i.v.reads > 2000 {
		panic(violation{"a search reads more than 2000 elements of a range far too long to scan"})
	}
	return E{2 * ((i.pos + i.v.off) / i.v.step), i.pos}
}

func (i *virtIter) SetValue(E)                         { panic(violation{"a search wrote to the range"}) }
func (i *virtIter) Next() iterator.ConstIterator[E]    { i.pos++; return i }
func (i *virtIter) Prev() iterator.ConstBidIterator[E] { i.pos--; return i }
func (i *virtIter) Clone() iterator.ConstIterator[E]   { c := *i; return &c }
func (i *virtIter) IteratorAt(p int) ra                { return &virtIter{i.v, p} }
func (i *virtIter) Position() int                      { return i.pos }
func (i *virtIter) Equal(o iterator.ConstIterator[E]) bool {
	x, ok := o.(*virtIter)
	return ok && x.v == i.v && x.pos == i.pos
}

func runSearchHuge(t *T) {
	bits := 20 + t.Intn(38)
	n := 1<<bits - t.Intn(1000)
	v := &virtual{step: 1 + t.Intn(1<<t.Intn(20)), off: t.Intn(1000), max: n}
	lo := t.R.IntN(n / 2)
	hi := lo + 1 + t.R.IntN(n-lo)
	at := func(p int) ra { return &virtIter{v, p} }
	for i := 0; i < 8; i++ {
		k := at(lo + t.R.IntN(hi-lo)).Value().K // even, and in the range
		switch t.Intn(6) {
		case 0, 1:
			k++ // between two elements
		case 2:
			k--
		case 3:
			if t.Chance(2) {
				k = -2 - t.Intn(3)
			} else {
				k = at(hi).Value().K + 2 + t.Intn(3)
			}
		}
		// reference: the first position whose element is >= 2j is j*step-off, clipped to the range
		from := func(j int) int {
			if j < 0 {
				return lo
			}
			return min(max(j*v.step-v.off, lo), hi)
		}
		lb, ub := from((k+1)>>1), from(k>>1+1)
		t.Op("huge search", n, v.step, lo, hi, k)
		ncmp := 0
		cmp := func(a, b E) int {
			// three searches, a logarithm of at most 58
			if ncmp++; ncmp > 1000 {
				t.Failf("searching %d in a range of %d elements compares more than 1000 times", k, hi-lo)
			}
			return cmpK(a, b)
		}
		v.reads = 0
		l := libLowerBound(at(lo), at(hi), E{k, 0}, cmp)
		u := libUpperBound(at(lo), at(hi), E{k, 0}, cmp)
		if l.Position() != lb || u.Position() != ub {
			t.Failf("searching %d in the range [%d,%d) of x -> 2*((x+%d)/%d): bounds %d,%d, want %d,%d", k, lo, hi, v.off, v.step, l.Position(), u.Position(), lb, ub)
		}
		if got := libBinarySearch(at(lo), at(hi), E{k, 0}, cmp); got != (lb < ub) {
			t.Failf("BinarySearch of %d in [%d,%d) of x -> 2*((x+%d)/%d) = %v", k, lo, hi, v.off, v.step, got)
		}
		t.CountN("comparisons observed", ncmp)
		t.Count("searches in huge ranges")
		if lb == ub {
			t.Count("searches in huge ranges that miss")
		}
	}
	t.Nontrivial()
}

// ---- C04 NthElement ----

func checkNth(t *T, kind int, es []E, lo, hi, n int, cname string, cmp comparator.Comparator[E]) {
	c := makeSeq(t, kind, es, lo, hi, true)
	base := c.at(0).Position()
	t.Op("NthElement", c.name, cname, lo, hi, n, showE(es))
	first, last := c.at(lo), c.at(hi)
	libNthElement(first, last, n, cmp)
	checkArgs(t, "NthElement", first, last, base+lo, base+hi)
	after := c.get()
	checkOutside(t, "NthElement", es, after, lo, hi)
	if n >= 0 && n < hi-lo {
		want := append([]E(nil), es[lo:hi]...)
		refStable(want, cmp)
		if cmp(after[lo+n], want[n]) != 0 {
			t.Failf("NthElement(%s, n=%d) of %s put %v at n, want %v: %s", cname, n, showE(es[lo:hi]), after[lo+n], want[n], showE(after[lo:hi]))
		}
		for i := lo; i < hi; i++ {
			if c := cmp(after[i], after[lo+n]); (i < lo+n && c > 0) || (i > lo+n && c < 0) {
				t.Failf("NthElement(%s, n=%d) of %s left %v at %d on the wrong side of %v: %s", cname, n, showE(es[lo:hi]), after[i], i-lo, after[lo+n], showE(after[lo:hi]))
			}
		}
		t.Count("selections")
		if hi-lo > 1 {
			t.Nontrivial()
		}
	}
}

func runNth(t *T) {
	es := genElems(t, pickSize(t))
	lo, hi := pickRange(t, len(es))
	cname, cmp := pickCmp(t)
	m := hi - lo
	ns := []int{0, m - 1, m / 2, m}
	for i := 0; i < 6; i++ {
		ns = append(ns, t.Intn(m+1))
	}
	for _, n := range ns {
		if n >= 0 {
			checkNth(t, t.Intn(5), es, lo, hi, n, cname, cmp)
		}
	}
}

// runNthHard gives NthElement arrangements made against it.
func runNthHard(t *T) {
	m := hardSize(t)
	n := t.Intn(m)
	es := hardElems(t, m, func(first, last ra, cmp comparator.Comparator[E]) { libNthElement(first, last, n, cmp) })
	all, lo, hi := pad(t, es)
	for _, k := range []int{n, 0, m - 1, t.Intn(m)} {
		checkNth(t, t.Intn(5), all, lo, hi, k, "natural", cmpK)
	}
	checkNth(t, t.Intn(5), all, lo, hi, n, "reverse", comparator.Reverse[E](cmpK))
	a := newAdversary(len(all))
	c := makeSeq(t, t.Intn(5), all, lo, hi, true)
	t.Op("NthElement against a live adversary", lo, hi, n)
	libNthElement(c.at(lo), c.at(hi), n, comparator.Comparator[E](a.cmp))
	after := c.get()
	checkOutside(t, "NthElement", all, after, lo, hi)
	a.settle()
	for i := lo; i < hi; i++ {
		if v, p := a.val[after[i].ID], a.val[after[lo+n].ID]; (i < lo+n && v > p) || (i > lo+n && v < p) {
			t.Failf("NthElement(n=%d) of %d elements under an order settled on the way leaves element %d on the wrong side", n, hi-lo, i-lo)
		}
	}
}

func runNthSmall(t *T) {
	tot := smallTotal(4, 6)
	for i := t.Case * smallBlock; i < min(tot, (t.Case+1)*smallBlock); i++ {
		es := smallSeq(4, i)
		for n := 0; n < len(es); n++ {
			checkNth(t, (i+n)%5, es, 0, len(es), n, "natural", cmpK)
		}
	}
}

// ---- C05 NextPermutation ----

// refNext is an independent next permutation over ranks: it searches the
// smallest arrangement greater than the current one position by position.
func refNext(es []E, cmp func(a, b E) int) ([]E, bool) {
	n := len(es)
	for i := n - 2; i >= 0; i-- {
		// can the suffix starting at i be made greater by putting a larger element at i?
		best := -1
		for j := i + 1; j < n; j++ {
			if cmp(es[j], es[i]) > 0 && (best < 0 || cmp(es[j], es[best]) < 0) {
				best = j
			}
		}
		if best < 0 {
			continue
		}
		out := append([]E(nil), es[:i]...)
		out = append(out, es[best])
		rest := append([]E(nil), es[i:best]...)
		rest = append(rest, es[best+1:]...)
		refStable(rest, cmp)
		return append(out, rest...), true
	}
	return nil, false
}

func checkNextPerm(t *T, kind int, es []E, lo, hi int, cname string, cmp comparator.Comparator[E]) []E {
	c := makeSeq(t, kind, es, lo, hi, true)
	base := c.at(0).Position()
	t.Op("NextPermutation", c.name, cname, lo, hi, showE(es))
	first, last := c.at(lo), c.at(hi)
	ok := libNextPermutation(first, last, cmp)
	checkArgs(t, "NextPermutation", first, last, base+lo, base+hi)
	after := c.get()
	checkOutside(t, "NextPermutation", es, after, lo, hi)
	want, wok := refNext(es[lo:hi], cmp)
	if ok != wok {
		t.Failf("NextPermutation(%s) of %s returned %v, want %v", cname, showE(es[lo:hi]), ok, wok)
	}
	if !wok {
		want = es[lo:hi] // nothing greater: the range stays
		t.Count("last permutations")
	} else {
		t.Count("steps to the next permutation")
		t.Nontrivial()
	}
	for i := range want {
		if cmp(want[i], after[lo+i]) != 0 {
			t.Failf("NextPermutation(%s) of %s gave %s, want %s", cname, showE(es[lo:hi]), showE(after[lo:hi]), showE(want))
		}
	}
	return after
}

func runNextPerm(t *T) {
	n := t.Intn(12)
	if t.Chance(10) {
		n = t.Intn(300)
	}
	es := genElems(t, n)
	lo, hi := pickRange(t, n)
	cname, cmp := pickCmp(t)
	kind := t.Intn(5)
	for i := 0; i < 10; i++ {
		es = checkNextPerm(t, kind, es, lo, hi, cname, cmp)
	}
}

func runNextPermSmall(t *T) {
	tot := smallTotal(4, 6)
	for i := t.Case * smallBlock; i < min(tot, (t.Case+1)*smallBlock); i++ {
		es := smallSeq(4, i)
		checkNextPerm(t, i%5, es, 0, len(es), "natural", cmpK)
	}
}

// runPermCycle walks a whole chain from the sorted arrangement: every distinct
// arrangement must appear exactly once.
func runPermCycle(t *T) {
	n := t.Intn(7)
	es := make([]E, n)
	k := 1 + t.Intn(n+1)
	for i := range es {
		es[i] = E{t.Intn(k), i}
	}
	refStable(es, cmpK)
	want := 1
	run := 0
	for i := range es {
		if i > 0 && es[i].K == es[i-1].K {
			run++
		} else {
			run = 1
		}
		want = want * (i + 1) / run
	}
	kind := t.Intn(4)
	c := makeSeq(t, kind, es, 0, n, true)
	t.Op("permutation chain", c.name, showE(es))
	seen := map[string]bool{}
	for {
		s := ""
		for _, e := range c.get() {
			s += fmt.Sprint(e.K, " ")
		}
		if seen[s] {
			t.Failf("the arrangement %s comes twice", s)
		}
		seen[s] = true
		t.Tick()
		if !libNextPermutation(c.at(0), c.at(n), cmpK) {
			break
		}
	}
	if len(seen) != want {
		t.Failf("the chain of permutations of %s has %d arrangements, want %d", showE(es), len(seen), want)
	}
	t.CountN("steps to the next permutation", len(seen)-1)
	t.Count("complete chains")
	if want > 1 {
		t.Nontrivial()
	}
}

// ---- C06 non-modifying algorithms, Swap, Reverse ----

// fwdCont is any container that can be walked forwards.
type fwdCont struct {
	name    string
	at      func(pos int) iterator.ConstIterator[E] // pos == len: the end, where there is one
	get     func() []E
	set     func(pos int) iterator.Iterator[E]    // nil if read-only
	bid     func(pos int) iterator.BidIterator[E] // nil if none
	hasEnd  bool                                  // at(len) works for Equal
	bidEnd  bool                                  // bid(len) works for Prev
	ordered bool
}

func cmpEBoth(a, b E) int {
	if c := refOrd(a.K, b.K); c != 0 {
		return c
	}
	return refOrd(a.ID, b.ID)
}

func makeFwd(t *T, kind int, es []E) (*fwdCont, []E) {
	if kind >= 5 && t.Chance(4) {
		return typedFwd(t, kind, es, t.Intn(nTypes))
	}
	return fwdOf(t, kind, es, plain[E]())
}

func fwdOf[X any](t *T, kind int, es []E, ks *codec[E, X]) (*fwdCont, []E) {
	if kind < 5 {
		c := makeSeq(t, kind, es, 0, len(es), true)
		return &fwdCont{name: c.name, get: c.get, hasEnd: true, bidEnd: true,
			at:  func(p int) iterator.ConstIterator[E] { return c.at(p) },
			set: func(p int) iterator.Iterator[E] { return c.at(p) },
			bid: func(p int) iterator.BidIterator[E] { return c.at(p) }}, es
	}
	switch kind {
	case 5:
		l := bidlist.New[X]()
		for _, e := range es {
			l.PushBack(ks.enc(e))
		}
		node := func(p int) *bidlist.Node[X] {
			n := l.FrontNode()
			for ; p > 0; p-- {
				n = n.Next()
			}
			return n
		}
		return &fwdCont{name: "bidlist", hasEnd: true, bidEnd: false,
			at: func(p int) iterator.ConstIterator[E] {
				return asConst(ks, iterator.ConstIterator[X](bidlist.NewIterator(node(p))))
			},
			set: func(p int) iterator.Iterator[E] {
				return asConst(ks, iterator.ConstIterator[X](bidlist.NewIterator(node(p)))).(iterator.Iterator[E])
			},
			bid: func(p int) iterator.BidIterator[E] {
				return asConst(ks, iterator.ConstIterator[X](bidlist.NewIterator(node(p)))).(iterator.BidIterator[E])
			},
			get: func() (out []E) {
				for n := l.FrontNode(); n != nil; n = n.Next() {
					out = append(out, ks.dec(n.Value))
				}
				return
			}}, es
	case 6:
		l := simplelist.New[X]()
		for _, e := range es {
			l.PushBack(ks.enc(e))
		}
		node := func(p int) *simplelist.Node[X] {
			n := l.FrontNode()
			for ; p > 0; p-- {
				n = n.Next()
			}
			return n
		}
		return &fwdCont{name: "simplelist", hasEnd: true,
			at: func(p int) iterator.ConstIterator[E] {
				return asConst(ks, iterator.ConstIterator[X](simplelist.NewIterator(node(p))))
			},
			set: func(p int) iterator.Iterator[E] {
				return asConst(ks, iterator.ConstIterator[X](simplelist.NewIterator(node(p)))).(iterator.Iterator[E])
			},
			get: func() (out []E) {
				for n := l.FrontNode(); n != nil; n = n.Next() {
					out = append(out, ks.dec(n.Value))
				}
				return
			}}, es
	case 7, 8: // map and multimap iterate over their values in key order
		key := func(i int) int { return i * 3 }
		if kind == 7 {
			m := treemap.New[int, X](comparator.IntComparator)
			for _, i := range t.R.Perm(len(es)) {
				m.Insert(key(i), ks.enc(es[i]))
			}
			return &fwdCont{name: "map", hasEnd: true,
				at: func(p int) iterator.ConstIterator[E] {
					if p == len(es) {
						return asConst(ks, iterator.ConstIterator[X](m.LowerBound(key(p))))
					}
					return asConst(ks, iterator.ConstIterator[X](m.Find(key(p))))
				},
				set: func(p int) iterator.Iterator[E] {
					return asConst(ks, iterator.ConstIterator[X](m.Find(key(p)))).(iterator.Iterator[E])
				},
				get: func() (out []E) {
					m.Traversal(func(k int, v X) bool { out = append(out, ks.dec(v)); return true })
					return
				}}, es
		}
		m := treemap.NewMultiMap[int, X](comparator.IntComparator)
		for _, i := range t.R.Perm(len(es)) {
			m.Insert(key(i), ks.enc(es[i]))
		}
		return &fwdCont{name: "multimap", hasEnd: true,
			at: func(p int) iterator.ConstIterator[E] {
				if p == len(es) {
					return asConst(ks, iterator.ConstIterator[X](m.UpperBound(key(p))))
				}
				return asConst(ks, iterator.ConstIterator[X](m.LowerBound(key(p))))
			},
			set: func(p int) iterator.Iterator[E] {
				return asConst(ks, iterator.ConstIterator[X](m.LowerBound(key(p)))).(iterator.Iterator[E])
			},
			get: func() (out []E) {
				m.Traversal(func(k int, v X) bool { out = append(out, ks.dec(v)); return true })
				return
			}}, es
	case 9, 10:
		sorted := append([]E(nil), es...)
		refStable(sorted, cmpEBoth)
		cmp := func(a, b X) int { return cmpEBoth(ks.dec(a), ks.dec(b)) }
		if kind == 9 {
			s := set.New[X](cmp)
			for _, i := range t.R.Perm(len(es)) {
				s.Insert(ks.enc(es[i]))
			}
			return &fwdCont{name: "set", hasEnd: true,
				at: func(p int) iterator.ConstIterator[E] {
					if p == len(sorted) {
						return asConst(ks, iterator.ConstIterator[X](s.LowerBound(ks.enc(E{1 << 60, 0}))))
					}
					return asConst(ks, iterator.ConstIterator[X](s.Find(ks.enc(sorted[p]))))
				},
				get: func() (out []E) {
					s.Traversal(func(v X) bool { out = append(out, ks.dec(v)); return true })
					return
				}}, sorted
		}
		s := set.NewMultiSet[X](cmp)
		for _, i := range t.R.Perm(len(es)) {
			s.Insert(ks.enc(es[i]))
		}
		return &fwdCont{name: "multiset", hasEnd: true,
			at: func(p int) iterator.ConstIterator[E] {
				if p == len(sorted) {
					return asConst(ks, iterator.ConstIterator[X](s.UpperBound(ks.enc(E{1 << 60, 0}))))
				}
				return asConst(ks, iterator.ConstIterator[X](s.Find(ks.enc(sorted[p]))))
			},
			get: func() (out []E) {
				s.Traversal(func(v X) bool { out = append(out, ks.dec(v)); return true })
				return
			}}, sorted
	}
	panic("kind")
}

const nFwdKinds = 11

func checkConstAlgos(t *T, kind int, es0 []E, lo, hi int) {
	c, es := makeFwd(t, kind, es0)
	val := E{0, -1}
	if len(es) > 0 && !t.Chance(4) {
		val.K = es[t.Intn(len(es))].K
	} else if t.Chance(2) {
		val.K = 1 << 45
	}
	t.Op("const algorithms", c.name, lo, hi, val.K, showE(es))
	rng := es[lo:hi]
	cname, cmp := pickCmp(t)
	first, last := c.at(lo), c.at(hi)
	same := func(what string) {
		if !first.Equal(c.at(lo)) || !last.Equal(c.at(hi)) {
			t.Failf("%s on %s moved the iterators it was given", what, c.name)
		}
	}
	is := func(what string, it iterator.ConstIterator[E], want int) {
		if !it.Equal(c.at(want)) {
			got := -1
			for i := 0; i <= len(es); i++ {
				if it.Equal(c.at(i)) {
					got = i
				}
			}
			t.Failf("%s on %s [%d,%d) of %s is at %d, want %d", what, c.name, lo, hi, showE(es), got, want)
		}
	}
	n, pos, maxi, mini := 0, hi, hi, hi
	for i, e := range rng {
		if cmp(e, val) == 0 {
			n++
			if pos == hi {
				pos = lo + i
			}
		}
		if maxi == hi || cmp(e, es[maxi]) > 0 {
			maxi = lo + i
		}
		if mini == hi || cmp(e, es[mini]) < 0 {
			mini = lo + i
		}
	}
	if g := libCount(first, last, val, cmp); g != n {
		t.Failf("Count(%s, %v) on %s [%d,%d) of %s = %d, want %d", cname, val, c.name, lo, hi, showE(es), g, n)
	}
	same("Count")
	is("Find", libFind(first, last, val, cmp), pos)
	same("Find")
	is("MaxElement("+cname+")", libMaxElement(first, last, cmp), maxi)
	same("MaxElement")
	is("MinElement("+cname+")", libMinElement(first, last, cmp), mini)
	same("MinElement")

	// predicates: some constant, some by value, some by position
	mod, rem := 1+t.Intn(6), t.Intn(3)
	preds := []func(e E) bool{
		func(e E) bool { return ((e.K%mod)+mod)%mod == rem },
		func(e E) bool { return true },
		func(e E) bool { return false },
		func(e E) bool { return e.K == val.K },
		func(e E) bool { return e.K != val.K },
	}
	if len(rng) > 0 { // true or false for exactly one element of the range, often the last
		x := rng[len(rng)-1].ID
		if t.Chance(2) {
			x = rng[t.Intn(len(rng))].ID
		}
		preds = append(preds, func(e E) bool { return e.ID == x }, func(e E) bool { return e.ID != x })
	}
	for pi, p := range preds {
		cnt, fp := 0, hi
		for i, e := range rng {
			if p(e) {
				cnt++
				if fp == hi {
					fp = lo + i
				}
			}
		}
		visits := 0
		f := func(it iterator.ConstIterator[E]) bool {
			visits++
			return p(it.Value())
		}
		if g := libCountIf(first, last, f); g != cnt {
			t.Failf("CountIf on %s [%d,%d) of %s = %d, want %d (predicate %d)", c.name, lo, hi, showE(es), g, cnt, pi)
		}
		if visits != len(rng) {
			t.Failf("CountIf on %s evaluated the predicate %d times on %d elements", c.name, visits, len(rng))
		}
		same("CountIf")
		is("FindIf", libFindIf(first, last, f), fp)
		same("FindIf")
		if g := libAnyOf(first, last, f); g != (cnt > 0) {
			t.Failf("AnyOf on %s [%d,%d) of %s = %v (predicate %d)", c.name, lo, hi, showE(es), g, pi)
		}
		if g := libAllOf(first, last, f); g != (cnt == len(rng)) {
			t.Failf("AllOf on %s [%d,%d) of %s = %v (predicate %d)", c.name, lo, hi, showE(es), g, pi)
		}
		if g := libNoneOf(first, last, f); g != (cnt == 0) {
			t.Failf("NoneOf on %s [%d,%d) of %s = %v (predicate %d)", c.name, lo, hi, showE(es), g, pi)
		}
		same("AnyOf, AllOf or NoneOf")
	}
	if !sameElems(c.get(), es) {
		t.Failf("a non-modifying algorithm changed the %s", c.name)
	}
	t.Count("ranges of " + c.name)
	if hi == lo {
		t.Count("empty ranges")
	} else {
		t.Nontrivial()
	}
}

func runConst(t *T) {
	n := t.Intn(24)
	if t.Chance(20) {
		n = pickSize(t)
	}
	es := genElems(t, n)
	lo, hi := pickRange(t, n)
	checkConstAlgos(t, t.Case%nFwdKinds, es, lo, hi)
}

func runMutating(t *T) {
	n := t.Intn(24)
	if t.Chance(20) {
		n = pickSize(t)
	}
	kind := t.Case % 9
	c, es := makeFwd(t, kind, genElems(t, n))
	for step := 0; step < 6; step++ {
		if n > 0 && t.Chance(2) {
			i, j := t.Intn(n), t.Intn(n)
			t.Op("Swap", c.name, i, j)
			a, b := c.set(i), c.set(j)
			libSwap(a, b)
			want := append([]E(nil), es...)
			want[i], want[j] = want[j], want[i]
			if g := c.get(); !sameElems(g, want) {
				t.Failf("Swap(%d, %d) on %s of %s gave %s", i, j, c.name, showE(es), showE(g))
			}
			if !a.Equal(c.at(i)) || !b.Equal(c.at(j)) {
				t.Failf("Swap moved its iterators")
			}
			es = want
			t.Count("swaps on " + c.name)
			if i != j {
				t.Nontrivial()
			}
		} else if c.bid != nil {
			lo, hi := pickRange(t, n)
			if hi == n && !c.bidEnd {
				// a range of this list has to end at a real node
				if n == 0 {
					continue
				}
				hi = n - 1
				lo = min(lo, hi)
			}
			t.Op("Reverse", c.name, lo, hi)
			a, b := c.bid(lo), c.bid(hi)
			libReverse(a, b)
			want := append([]E(nil), es...)
			for i, j := lo, hi-1; i < j; i, j = i+1, j-1 {
				want[i], want[j] = want[j], want[i]
			}
			if g := c.get(); !sameElems(g, want) {
				t.Failf("Reverse [%d,%d) on %s of %s gave %s", lo, hi, c.name, showE(es), showE(g))
			}
			if !a.Equal(c.at(lo)) || !b.Equal(c.at(hi)) {
				t.Failf("Reverse moved its iterators")
			}
			es = want
			t.Count("reversals on " + c.name)
			t.Count(fmt.Sprintf("reversals of length %d mod 2", (hi-lo)%2))
			if hi-lo > 1 {
				t.Nontrivial()
			}
		}
	}
}

func init() {
	genRule := "random cases: a container (vector, deque with a moved ring, array, slice, or a strict harness iterator that fails on any access outside the range), a sub-range, elements in several shapes (few or many distinct keys, sorted, reversed, organ pipe, nearly sorted, saw) and an order (natural, reversed, abs, modulo, OrderedTypeCmp)"
	small := "; suite small enumerates all 5461 sequences over 4 keys up to length 6"
	register(&Prop{ID: "C02", Rule: genRule + "; elements carry identities, so permutation and stability are observable; suite hard: ranges nearly all equal, in runs, or arranged by an adversary that decides the order while it is asked so that every pivot is extreme; non-trivial when the range has two or more elements" + small,
		Suites: []Suite{
			{Name: "hard", Quick: 60000, Thorough: 400000, Run: runSortHard},
			{Name: "random", Quick: 480000, Thorough: 1500000, Run: runSort},
			{Name: "small", Quick: blocks(5461), Thorough: blocks(5461), Run: runSortSmall, Exhaust: true},
		}, Require: []string{"adversarial arrangements", "inputs with ties", "inputs that were out of order", "empty ranges", "Stable on deque", "Sort on strict"}})
	register(&Prop{ID: "C03", Rule: genRule + ", sorted by that order; probes equal to, next to, below and above the elements, compared with a linear scan; suite small: all sorted sequences over 3 keys up to length 10 with all probes; suite huge: computed ranges of up to 2^57 positions; non-trivial when the range is not empty",
		Suites: []Suite{
			{Name: "random", Quick: 240000, Thorough: 1500000, Run: runSearch},
			{Name: "small", Quick: 11, Thorough: 11, Run: runSearchSmall, Exhaust: true},
			{Name: "huge", Quick: 120000, Thorough: 400000, Run: runSearchHuge},
		}, Require: []string{"searches that hit", "searches that miss", "values above the range", "values below the range", "searches in huge ranges"}})
	register(&Prop{ID: "C04", Rule: genRule + "; the element at n is compared with a sorted copy and every other element with it; suite hard: as in C02, the adversary playing against NthElement; non-trivial when n selects an element of a range of two or more" + small + " with every n",
		Suites: []Suite{
			{Name: "hard", Quick: 60000, Thorough: 400000, Run: runNthHard},
			{Name: "random", Quick: 240000, Thorough: 1200000, Run: runNth},
			{Name: "small", Quick: blocks(5461), Thorough: blocks(5461), Run: runNthSmall, Exhaust: true},
		}, Require: []string{"adversarial arrangements", "selections"}})
	register(&Prop{ID: "C05", Rule: genRule + "; each step is compared with an independent successor, and whole chains from the sorted arrangement must meet every arrangement once; non-trivial when a successor exists" + small,
		Suites: []Suite{
			{Name: "random", Quick: 360000, Thorough: 1200000, Run: runNextPerm},
			{Name: "small", Quick: blocks(5461), Thorough: blocks(5461), Run: runNextPermSmall, Exhaust: true},
			{Name: "chains", Quick: 32000, Thorough: 40000, Run: runPermCycle},
		}, Require: []string{"last permutations", "steps to the next permutation", "complete chains"}})
	var req []string
	for _, k := range []string{"vector", "deque", "array", "slice", "strict", "bidlist", "simplelist", "map", "multimap", "set", "multiset"} {
		req = append(req, "ranges of "+k)
	}
	register(&Prop{ID: "C06", Rule: "one case = one of 11 kinds of range (the random-access containers, both lists, map, multimap, set, multiset) with a sub-range, a probe value, an order and 5-7 predicates (value tests, constants, exactly-one and all-but-one), every algorithm compared with a loop over a copy; suite mutating: sequences of Swap and Reverse; non-trivial when the range is not empty (swaps of two positions, reversals of two or more elements)",
		Suites: []Suite{
			{Name: "const", Quick: 900000, Thorough: 2000000, Run: runConst},
			{Name: "mutating", Quick: 900000, Thorough: 2000000, Run: runMutating},
		}, Require: append(req, "reversals on bidlist", "reversals on deque", "swaps on map", "empty ranges")})
}
