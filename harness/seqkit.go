package main

import (
	"fmt"

	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/ds/vector"
	"github.com/liyue201/gostl/utils/comparator"
	"github.com/liyue201/gostl/utils/iterator"
)

// E is an element with an identity: comparators look at K only, so elements
// that compare equal can still be told apart.
type E struct{ K, ID int }

func (e E) String() string { return fmt.Sprintf("%d#%d", e.K, e.ID) }

func cmpK(a, b E) int { return refOrd(a.K, b.K) }

type ra = iterator.RandomAccessIterator[E]

// seqCont is a random-access container holding E's, seen through iterators.
type seqCont struct {
	name string
	at   func(pos int) ra // pos 0 is the first element of the container
	get  func() []E
}

// strict is a container of the harness's own with a checking iterator: the
// library may touch elements only inside [lo, hi).
type strict struct {
	t      *T
	data   []E
	base   int // position of data[0]
	lo, hi int // element indices the call may touch
	writes bool
	nread  int
	nwrite int
}

type strictIter struct {
	s   *strict
	pos int
}

func (i *strictIter) IsValid() bool {
	p := i.pos - i.s.base
	return p >= 0 && p < len(i.s.data)
}
func (i *strictIter) check(what string) int {
	p := i.pos - i.s.base
	if p < i.s.lo || p >= i.s.hi {
		i.s.t.Failf("%s of element %d outside the range [%d,%d) that was passed", what, p, i.s.lo, i.s.hi)
	}
	return p
}
func (i *strictIter) Value() E {
	i.s.nread++
	return i.s.data[i.check("read")]
}
func (i *strictIter) SetValue(v E) {
	if !i.s.writes {
		i.s.t.Failf("a non-modifying algorithm wrote element %d", i.pos-i.s.base)
	}
	i.s.nwrite++
	i.s.data[i.check("write")] = v
}
func (i *strictIter) Next() iterator.ConstIterator[E]    { i.pos++; return i }
func (i *strictIter) Prev() iterator.ConstBidIterator[E] { i.pos--; return i }
func (i *strictIter) Clone() iterator.ConstIterator[E]   { return &strictIter{i.s, i.pos} }
func (i *strictIter) IteratorAt(p int) ra                { return &strictIter{i.s, p} }
func (i *strictIter) Position() int                      { return i.pos }
func (i *strictIter) Equal(o iterator.ConstIterator[E]) bool {
	x, ok := o.(*strictIter)
	return ok && x.s == i.s && x.pos == i.pos
}

// makeSeq puts contents into one of the library's containers or into the
// harness's strict one; lo, hi is the range the call will be about. One time
// out of four the container is of a type other than E.
func makeSeq(t *T, kind int, contents []E, lo, hi int, writes bool) *seqCont {
	if kind >= 4 {
		s := &strict{t: t, data: append([]E(nil), contents...), base: t.Intn(3) * 1000, lo: lo, hi: hi, writes: writes}
		return &seqCont{"strict", func(p int) ra { return &strictIter{s, p + s.base} }, func() []E { return append([]E(nil), s.data...) }}
	}
	if t.Chance(4) {
		return typedSeq(t, kind, contents, t.Intn(nTypes))
	}
	return seqOf(t, kind, contents, plain[E]())
}

func seqOf[X any](t *T, kind int, contents []E, ks *codec[E, X]) *seqCont {
	all := func(n int, at func(int) X) (out []E) {
		for i := 0; i < n; i++ {
			out = append(out, ks.dec(at(i)))
		}
		return
	}
	switch kind {
	case 0:
		v := vector.New[X](vector.WithCapacity(t.Intn(len(contents) + 3)))
		for _, e := range contents {
			v.PushBack(ks.enc(e))
		}
		return &seqCont{"vector", func(p int) ra { return asRA(ks, v.IterAt(p)) }, func() []E { return all(v.Size(), v.At) }}
	case 1:
		d := deque.New[X]()
		// move the ring's start around so that positions cross segment borders
		for i, n := 0, t.Intn(140); i < n; i++ {
			d.PushBack(ks.enc(E{}))
			if t.Chance(2) {
				d.PopFront()
			}
		}
		for !d.Empty() {
			d.PopFront()
		}
		split := t.Intn(len(contents) + 1)
		for i := split - 1; i >= 0; i-- {
			d.PushFront(ks.enc(contents[i]))
		}
		for i := split; i < len(contents); i++ {
			d.PushBack(ks.enc(contents[i]))
		}
		return &seqCont{"deque", func(p int) ra { return asRA(ks, d.IterAt(p)) }, func() []E { return all(d.Size(), d.At) }}
	case 2:
		a := array.New[X](len(contents))
		for i, e := range contents {
			a.Set(i, ks.enc(e))
		}
		return &seqCont{"array", func(p int) ra { return asRA(ks, a.IterAt(p)) }, func() []E { return all(a.Size(), a.At) }}
	case 3:
		raw := make([]X, 0, len(contents)+t.Intn(3))
		for _, e := range contents {
			raw = append(raw, ks.enc(e))
		}
		w := slice.NewSliceWrapper(raw)
		return &seqCont{"slice", func(p int) ra { return asRA(ks, w.Begin().IteratorAt(p)) }, func() []E { return all(len(raw), func(i int) X { return raw[i] }) }}
	}
	panic("kind")
}

// pickRange chooses [lo, hi) of a container of n elements: often all of it.
func pickRange(t *T, n int) (lo, hi int) {
	switch t.Intn(4) {
	case 0:
		lo = t.Intn(n + 1)
		return lo, lo + t.Intn(n-lo+1)
	case 1:
		lo = t.Intn(min(n, 3) + 1)
		hi = n - t.Intn(min(n-lo, 3)+1)
		return lo, hi
	}
	return 0, n
}

func pickSize(t *T) int {
	switch t.Intn(20) {
	case 0:
		return 100 + t.Intn(400)
	case 1, 2, 3:
		return 20 + t.Intn(80)
	case 4:
		return 120 + t.Intn(20)
	}
	return t.Intn(20)
}

// genElems makes n elements in one of several shapes.
func genElems(t *T, n int) []E {
	es := make([]E, n)
	k := 1
	switch t.Intn(6) {
	case 0:
		k = 2
	case 1:
		k = 3
	case 2:
		k = n/2 + 1
	case 3:
		k = n*4 + 1
	case 4:
		k = 1 << 40
	}
	off := 0
	if t.Chance(2) {
		off = -k / 2
	}
	for i := range es {
		es[i].K = t.R.IntN(k) + off
	}
	switch t.Intn(8) {
	case 0:
		refStable(es, cmpK)
	case 1:
		refStable(es, func(a, b E) int { return -cmpK(a, b) })
	case 2: // organ pipe
		for i := range es {
			es[i].K = min(i, n-1-i)
		}
	case 3: // nearly sorted
		refStable(es, cmpK)
		for j := 0; j < 2 && n > 1; j++ {
			a, b := t.Intn(n), t.Intn(n)
			es[a], es[b] = es[b], es[a]
		}
	case 4: // saw
		p := 1 + t.Intn(9)
		for i := range es {
			es[i].K = i % p
		}
	}
	for i := range es {
		es[i].ID = i
	}
	return es
}

// refStable is a stable insertion/merge sort of the harness's own.
func refStable(es []E, cmp func(a, b E) int) {
	if len(es) < 12 {
		for i := 1; i < len(es); i++ {
			for j := i; j > 0 && cmp(es[j-1], es[j]) > 0; j-- {
				es[j-1], es[j] = es[j], es[j-1]
			}
		}
		return
	}
	m := len(es) / 2
	l := append([]E(nil), es[:m]...)
	r := append([]E(nil), es[m:]...)
	refStable(l, cmp)
	refStable(r, cmp)
	i, j := 0, 0
	for k := range es {
		if j == len(r) || (i < len(l) && cmp(l[i], r[j]) <= 0) {
			es[k] = l[i]
			i++
		} else {
			es[k] = r[j]
			j++
		}
	}
}

// pickCmp chooses an order: natural, reversed, or a weak order with ties.
func pickCmp(t *T) (string, comparator.Comparator[E]) {
	switch t.Intn(5) {
	case 0:
		return "reverse", comparator.Reverse[E](cmpK)
	case 1:
		m := 2 + t.Intn(9)
		return fmt.Sprintf("mod%d", m), func(a, b E) int { return refOrd(((a.K%m)+m)%m, ((b.K%m)+m)%m) }
	case 2:
		return "ordered", func(a, b E) int { return comparator.OrderedTypeCmp(a.K, b.K) }
	case 3:
		return "abs", func(a, b E) int { return refOrd(max(a.K, -a.K), max(b.K, -b.K)) }
	}
	return "natural", cmpK
}

func sameElems(a, b []E) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// isPermutation compares by identity.
func isPermutation(a, b []E) bool {
	if len(a) != len(b) {
		return false
	}
	m := make(map[E]int, len(a))
	for _, e := range a {
		m[e]++
	}
	for _, e := range b {
		if m[e]--; m[e] < 0 {
			return false
		}
	}
	return true
}

func showE(es []E) string {
	if len(es) > 60 {
		return fmt.Sprint(es[:60]) + fmt.Sprintf("...(%d)", len(es))
	}
	return fmt.Sprint(es)
}

// checkOutside fails unless everything outside [lo,hi) is as it was and the
// range holds the same elements.
func checkOutside(t *T, what string, before, after []E, lo, hi int) {
	if len(before) != len(after) {
		t.Failf("%s changed the size from %d to %d", what, len(before), len(after))
	}
	for i := range before {
		if (i < lo || i >= hi) && before[i] != after[i] {
			t.Failf("%s on [%d,%d) changed element %d outside the range: %v -> %v", what, lo, hi, i, before[i], after[i])
		}
	}
	if !isPermutation(before[lo:hi], after[lo:hi]) {
		t.Failf("%s on [%d,%d) lost or duplicated elements: %s -> %s", what, lo, hi, showE(before[lo:hi]), showE(after[lo:hi]))
	}
}

func checkArgs(t *T, what string, first, last ra, fp, lp int) {
	if first.Position() != fp || last.Position() != lp {
		t.Failf("%s moved the iterators it was given from %d,%d to %d,%d", what, fp, lp, first.Position(), last.Position())
	}
}
