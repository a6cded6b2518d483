package main

import (
	"fmt"

	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/ds/vector"
)

func insertAt[A any](s []A, pos int, v A) []A {
	s = append(s, v)
	copy(s[pos+1:], s[pos:])
	s[pos] = v
	return s
}

func eraseRange[A any](s []A, lo, hi int) []A { return append(s[:lo], s[hi:]...) }

// ---- C07 Deque ----

type dequeMon struct {
	t     *T
	d     *deque.Deque[int]
	m     []int
	next  int
	front int // where the model believes a segment border can be
}

func (q *dequeMon) val() int { q.next++; return q.next }

func (q *dequeMon) check() {
	t, d, m := q.t, q.d, q.m
	if d.Size() != len(m) {
		t.Failf("Size() = %d, want %d", d.Size(), len(m))
	}
	if d.Empty() != (len(m) == 0) {
		t.Failf("Empty() = %v with %d elements", d.Empty(), len(m))
	}
	if len(m) == 0 {
		return
	}
	if f := d.Front(); f != m[0] {
		t.Failf("Front() = %d, want %d", f, m[0])
	}
	if b := d.Back(); b != m[len(m)-1] {
		t.Failf("Back() = %d, want %d", b, m[len(m)-1])
	}
	for i, v := range m {
		if g := d.At(i); g != v {
			t.Failf("At(%d) = %d, want %d (size %d)", i, g, v, len(m))
		}
	}
}

// pos picks a position: the ends, the middle, near multiples of the segment
// size counted from either end, or anywhere.
func (q *dequeMon) pos(n int) int {
	t := q.t
	if n <= 0 {
		return 0
	}
	p := 0
	switch t.Intn(6) {
	case 0:
		p = t.Intn(3)
	case 1:
		p = n - 1 - t.Intn(3)
	case 2:
		p = n/2 + t.Intn(5) - 2
	case 3:
		p = 128*t.Intn(n/128+1) + t.Intn(5) - 2
	case 4:
		p = n - 128*t.Intn(n/128+1) + t.Intn(5) - 2
	default:
		p = t.Intn(n)
	}
	return max(0, min(p, n-1))
}

func (q *dequeMon) pushBack() {
	v := q.val()
	q.t.Op("PushBack", v)
	q.d.PushBack(v)
	q.m = append(q.m, v)
}

func (q *dequeMon) pushFront() {
	v := q.val()
	q.t.Op("PushFront", v)
	q.d.PushFront(v)
	q.m = insertAt(q.m, 0, v)
}

func (q *dequeMon) popFront() {
	q.t.Op("PopFront")
	if len(q.m) == 0 {
		q.t.mustPanic("PopFront on an empty deque", func() { q.d.PopFront() })
		return
	}
	if g := q.d.PopFront(); g != q.m[0] {
		q.t.Failf("PopFront() = %d, want %d", g, q.m[0])
	}
	q.m = q.m[1:]
}

func (q *dequeMon) popBack() {
	q.t.Op("PopBack")
	n := len(q.m)
	if n == 0 {
		q.t.mustPanic("PopBack on an empty deque", func() { q.d.PopBack() })
		return
	}
	if g := q.d.PopBack(); g != q.m[n-1] {
		q.t.Failf("PopBack() = %d, want %d", g, q.m[n-1])
	}
	q.m = q.m[:n-1]
}

func (q *dequeMon) insert(p int) {
	v := q.val()
	q.t.Op("Insert", p, v)
	q.d.Insert(p, v)
	if p < 0 || p > len(q.m) {
		q.t.Count("operations out of range")
		return
	}
	q.m = insertAt(q.m, p, v)
	if p > 0 && p < len(q.m)-1 {
		q.t.Count("insertions in the middle")
	}
}

func (q *dequeMon) eraseAt(p int) {
	q.t.Op("EraseAt", p)
	q.d.EraseAt(p)
	if p < 0 || p >= len(q.m) {
		q.t.Count("operations out of range")
		return
	}
	if p > 0 && p < len(q.m)-1 {
		q.t.Count("erasures in the middle")
	}
	q.m = eraseRange(q.m, p, p+1)
}

func (q *dequeMon) eraseRange(lo, hi int) {
	q.t.Op("EraseRange", lo, hi)
	q.d.EraseRange(lo, hi)
	if lo < 0 || lo >= hi || hi > len(q.m) {
		q.t.Count("operations out of range")
		return
	}
	q.m = eraseRange(q.m, lo, hi)
	q.t.Count("range erasures")
}

func (q *dequeMon) misc() {
	t, d, n := q.t, q.d, len(q.m)
	switch t.Intn(6) {
	case 0, 1:
		p := q.pos(n + 1)
		if t.Chance(6) {
			p = []int{-1, n, n + 1, n + 128, -128, -1 - t.Intn(2000), n + t.Intn(2000), n + 128*t.Intn(40), 1<<62 + t.Intn(300)}[t.Intn(9)]
		}
		v := q.val()
		t.Op("Set", p, v)
		err := d.Set(p, v)
		if p >= 0 && p < n {
			if err != nil {
				t.Failf("Set(%d) with %d elements: %v", p, n, err)
			}
			q.m[p] = v
		} else {
			if err == nil {
				t.Failf("Set(%d) with %d elements gave no error", p, n)
			}
			t.Count("operations out of range")
		}
	case 2:
		p := []int{-1, n, n + 1, n + 127, -128, -1 - t.Intn(2000), n + t.Intn(2000), n + 128*t.Intn(40), 1<<62 + t.Intn(300)}[t.Intn(9)]
		t.Op("At", p)
		t.mustPanic(fmt.Sprintf("At(%d) with %d elements", p, n), func() { d.At(p) })
	case 3:
		if n > 0 {
			p, v := q.pos(n), q.val()
			t.Op("IterAt.SetValue", p, v)
			it := d.IterAt(p)
			if it.Value() != q.m[p] {
				t.Failf("IterAt(%d).Value() = %d, want %d", p, it.Value(), q.m[p])
			}
			it.SetValue(v)
			q.m[p] = v
		}
	case 4:
		if n < 400 {
			t.Op("String")
			if g, w := d.String(), fmt.Sprint(q.m); g != w {
				t.Failf("String() = %s, want %s", clip(g, 300), clip(w, 300))
			}
		}
	case 5:
		t.Op("walk")
		i := 0
		for it := d.Begin(); !it.Equal(d.End()); it.Next() {
			if i >= n || it.Value() != q.m[i] {
				t.Failf("iteration gives %d at step %d", it.Value(), i)
			}
			i++
		}
		if i != n {
			t.Failf("iteration gave %d elements, want %d", i, n)
		}
		for it := d.Last(); it.IsValid(); it.Prev() {
			i--
			if i < 0 || it.Value() != q.m[i] {
				t.Failf("backward iteration gives %d at step %d", it.Value(), i)
			}
		}
		if i != 0 {
			t.Failf("backward iteration missed %d elements", i)
		}
	}
}

func runDeque(t *T) {
	q := &dequeMon{t: t, d: deque.New[int]()}
	targets := []int{4, 20, 126, 129, 140, 255, 258, 390, 520, 700, 1300}
	target := t.level(targets...)
	nops := t.steps(60 + t.Intn(250))
	// one of the profiles: balanced, queue-like either way, stack-like, insertion and erasure, everything
	prof := t.Intn(6)
	for i := 0; t.more(i, nops); i++ {
		n := len(q.m)
		grow := n < target/2 || (n < target+target/8+3 && t.Chance(2))
		if n == 0 && t.Chance(3) {
			grow = true
		}
		run := 1
		if t.Chance(4) {
			run = 1 + t.Intn(target/3+4)
		}
		if n < target && t.Chance(12) {
			run = target - n + t.Intn(3)
			grow = true
		}
		single := true
		switch {
		case t.Chance(8):
			q.misc()
		case t.Chance(60):
			t.Op("Clear")
			q.d.Clear()
			q.m = q.m[:0]
			t.Count("clears")
		case t.Chance(25):
			lo, hi := q.pos(n+1), q.pos(n+1)
			if t.Chance(8) {
				hi = n + 1 + t.Intn(3)
			}
			if t.Chance(8) {
				lo = -1 - t.Intn(3)
			}
			if !t.Chance(8) && lo > hi {
				lo, hi = hi, lo
			}
			if t.Chance(3) {
				hi = min(hi, lo+3)
			}
			q.eraseRange(lo, hi)
		case prof == 0 || prof == 5:
			switch t.Intn(6) {
			case 0, 1:
				if grow {
					q.insert(q.pos(n + 1))
				} else {
					q.eraseAt(q.pos(n))
				}
			case 2:
				for ; run > 0; run-- {
					if grow {
						q.pushBack()
					} else {
						q.popBack()
					}
				}
			case 3:
				for ; run > 0; run-- {
					if grow {
						q.pushFront()
					} else {
						q.popFront()
					}
				}
			case 4:
				for ; run > 0; run-- {
					if grow {
						q.pushFront()
					} else {
						q.popBack()
					}
				}
			case 5:
				for ; run > 0; run-- {
					if grow {
						q.pushBack()
					} else {
						q.popFront()
					}
				}
			}
			single = false
		case prof == 1: // queue, left to right, with interior edits
			for ; run > 0; run-- {
				if grow {
					q.pushBack()
				}
				if !grow || t.Chance(3) {
					q.popFront()
				}
			}
			if t.Chance(2) {
				q.insert(q.pos(len(q.m) + 1))
			} else if t.Chance(2) {
				q.eraseAt(q.pos(len(q.m)))
			}
		case prof == 2: // queue, right to left
			for ; run > 0; run-- {
				if grow {
					q.pushFront()
				}
				if !grow || t.Chance(3) {
					q.popBack()
				}
			}
			if t.Chance(2) {
				q.insert(q.pos(len(q.m) + 1))
			} else if t.Chance(2) {
				q.eraseAt(q.pos(len(q.m)))
			}
		default:
			p := q.pos(n + 1)
			if t.Chance(15) {
				p = []int{-1, n + 1, n + 130, -5}[t.Intn(4)]
			}
			if run > 40 {
				run = 40
			}
			if grow && n < target/2 {
				// reach the working size quickly
				for k := 0; k < target/4; k++ {
					if t.Chance(2) {
						q.pushBack()
					} else {
						q.pushFront()
					}
				}
			}
			for ; run > 0; run-- {
				if grow {
					q.insert(p)
				} else {
					q.eraseAt(p)
				}
				q.check()
			}
			single = false
		}
		_ = single
		q.check()
		if len(q.m) > 128 {
			t.Count("states beyond one segment")
			t.Nontrivial()
		}
		t.State(mix(uint64(len(q.m)), uint64(len(q.m)%7)))
	}
	// drain it from a random side, then use it again
	for len(q.m) > 0 {
		if t.Chance(2) {
			q.popFront()
		} else {
			q.popBack()
		}
	}
	q.popFront()
	q.popBack()
	q.check()
	for i := 0; i < 3; i++ {
		q.pushFront()
		q.pushBack()
	}
	q.check()
	t.Count("drained and refilled")
}

// runDequeEdge: at every fill around the segment size reached by a given mix
// of front and back pushes, insert and erase at every interesting position.
func runDequeEdge(t *T) {
	nf := t.Case % 18
	sizes := []int{0, 1, 2, 63, 64, 127, 128, 129, 130, 191, 192, 255, 256, 257, 300, 384, 385, 520}
	a := sizes[nf]
	b := sizes[(t.Case/18)%18]
	rot := []int{0, 1, 5, 64, 127}[(t.Case/(18*18))%5]
	build := func() *dequeMon {
		q := &dequeMon{t: t, d: deque.New[int]()}
		for i := 0; i < rot; i++ {
			q.d.PushBack(0)
			q.d.PopFront()
		}
		for i := 0; i < a; i++ {
			q.next++
			q.d.PushFront(q.next)
			q.m = append(q.m, q.next)
		}
		for i, j := 0, len(q.m)-1; i < j; i, j = i+1, j-1 {
			q.m[i], q.m[j] = q.m[j], q.m[i]
		}
		for i := 0; i < b; i++ {
			q.next++
			q.d.PushBack(q.next)
			q.m = append(q.m, q.next)
		}
		return q
	}
	n := a + b
	q := build()
	q.check()
	for k := 0; k < 12; k++ {
		p := q.pos(n + 1)
		q = build()
		t.Op("fresh deque", a, b, rot)
		switch t.Intn(3) {
		case 0:
			for i := 0; i < 3; i++ {
				q.insert(p)
				q.check()
			}
		case 1:
			for i := 0; i < 3; i++ {
				q.eraseAt(min(p, len(q.m)-1))
				q.check()
			}
		default:
			hi := min(n, p+1+t.Intn(140))
			q.eraseRange(p, hi)
			q.check()
		}
		// whatever the shape is now, both ends still work
		for i := 0; i < 2; i++ {
			q.pushFront()
			q.pushBack()
		}
		q.check()
		q.popFront()
		q.popBack()
		q.popBack()
		q.check()
	}
	if n > 128 {
		t.Count("states beyond one segment")
		t.Nontrivial()
	}
}

// ---- C08 Vector ----

func runVector(t *T) {
	v := vector.New[int]()
	if t.Chance(2) {
		c := t.Intn(200)
		v = vector.New[int](vector.WithCapacity(c))
		t.Op("WithCapacity", c)
		if v.Capacity() < c {
			t.Failf("New(WithCapacity(%d)) has capacity %d", c, v.Capacity())
		}
	}
	var m []int
	next := 0
	val := func() int { next++; return next }
	check := func() {
		if v.Size() != len(m) || v.Empty() != (len(m) == 0) {
			t.Failf("Size() = %d, Empty() = %v, want %d elements", v.Size(), v.Empty(), len(m))
		}
		if v.Capacity() < v.Size() {
			t.Failf("Capacity() = %d below Size() = %d", v.Capacity(), v.Size())
		}
		d := v.Data()
		if len(d) != len(m) {
			t.Failf("Data() has %d elements, want %d", len(d), len(m))
		}
		for i, x := range m {
			if v.At(i) != x || d[i] != x {
				t.Failf("At(%d) = %d, Data()[%d] = %d, want %d", i, v.At(i), i, d[i], x)
			}
		}
		if len(m) > 0 && (v.Front() != m[0] || v.Back() != m[len(m)-1]) {
			t.Failf("Front() = %d, Back() = %d, want %d, %d", v.Front(), v.Back(), m[0], m[len(m)-1])
		}
	}
	iterIs := func(what string, it *vector.VectorIterator[int], pos int) {
		if it.Position() != pos || it.IsValid() != (pos < len(m)) {
			t.Failf("%s returned an iterator at %d (valid %v), want %d", what, it.Position(), it.IsValid(), pos)
		}
		if pos < len(m) && it.Value() != m[pos] {
			t.Failf("%s returned an iterator on %d, want %d", what, it.Value(), m[pos])
		}
		if !it.Equal(v.IterAt(pos)) {
			t.Failf("%s returned an iterator not equal to IterAt(%d)", what, pos)
		}
	}
	nops := t.steps(30 + t.Intn(120))
	for i := 0; t.more(i, nops); i++ {
		n := len(m)
		bad := t.Chance(10)
		p := t.Intn(n + 1)
		if t.Chance(3) {
			p = []int{0, n, max(0, n-1), n / 2}[t.Intn(4)]
		}
		out := []int{-1, n + 1, n + 7, -1 << 40}[t.Intn(4)]
		op := t.Intn(18)
		if t.long > 0 && n > 24 {
			op = 9 + t.Intn(2) // erase a range
		}
		switch op {
		case 0, 1, 2:
			for k := 1 + t.Intn(4); k > 0; k-- {
				x := val()
				t.Op("PushBack", x)
				before := v.Capacity()
				v.PushBack(x)
				if len(m) < before && v.Capacity() != before {
					t.Failf("PushBack changed the capacity from %d to %d with %d elements", before, v.Capacity(), len(m))
				}
				m = append(m, x)
			}
		case 3, 4, 5:
			x := val()
			if bad {
				p = out
			}
			t.Op("InsertAt", p, x)
			v.InsertAt(p, x)
			if !bad {
				m = insertAt(m, p, x)
				if p < n {
					t.Count("insertions before the end")
					t.Nontrivial()
				}
			} else {
				t.Count("operations out of range")
			}
		case 6:
			x := val()
			t.Op("Insert", p, x)
			it := v.Insert(v.IterAt(p), x)
			m = insertAt(m, p, x)
			iterIs("Insert", it, p)
		case 7:
			if bad || n == 0 {
				p = []int{-1, n, n + 1}[t.Intn(3)]
			} else {
				p = min(p, n-1)
			}
			t.Op("EraseAt", p)
			v.EraseAt(p)
			if p >= 0 && p < n {
				m = eraseRange(m, p, p+1)
				t.Count("erasures")
			} else {
				t.Count("operations out of range")
			}
		case 8:
			if n > 0 {
				p = min(p, n-1)
				t.Op("Erase", p)
				it := v.Erase(v.IterAt(p))
				m = eraseRange(m, p, p+1)
				iterIs("Erase", it, p)
				t.Count("erasures")
			}
		case 9:
			lo, hi := t.Intn(n+1), t.Intn(n+1)
			if lo > hi && !bad {
				lo, hi = hi, lo
			}
			if bad && t.Chance(2) {
				hi = n + 1 + t.Intn(3)
			}
			if bad && t.Chance(3) {
				lo = -1
			}
			t.Op("EraseIndexRange", lo, hi)
			v.EraseIndexRange(lo, hi)
			if lo >= 0 && lo <= hi && hi <= n {
				m = eraseRange(m, lo, hi)
				t.Count("range erasures")
			} else {
				t.Count("operations out of range")
			}
		case 10:
			lo, hi := t.Intn(n+1), t.Intn(n+1)
			if lo > hi {
				lo, hi = hi, lo
			}
			t.Op("EraseRange", lo, hi)
			it := v.EraseRange(v.IterAt(lo), v.IterAt(hi))
			m = eraseRange(m, lo, hi)
			iterIs("EraseRange", it, lo)
			t.Count("range erasures")
		case 11:
			t.Op("PopBack")
			if n == 0 {
				t.mustPanic("PopBack on an empty vector", func() { v.PopBack() })
			} else {
				if g := v.PopBack(); g != m[n-1] {
					t.Failf("PopBack() = %d, want %d", g, m[n-1])
				}
				m = m[:n-1]
			}
		case 12:
			c := t.Intn(2*n + 40)
			before := v.Capacity()
			t.Op("Reserve", c)
			v.Reserve(c)
			if v.Capacity() < c || v.Capacity() < before {
				t.Failf("Reserve(%d) took the capacity from %d to %d", c, before, v.Capacity())
			}
			t.Count("capacity changes")
		case 13:
			t.Op("ShrinkToFit")
			v.ShrinkToFit()
			if v.Capacity() != n {
				t.Failf("ShrinkToFit() left capacity %d with %d elements", v.Capacity(), n)
			}
			t.Count("capacity changes")
		case 14:
			if t.Chance(3) {
				t.Op("Clear")
				v.Clear()
				m = m[:0]
			} else if t.Chance(2) {
				s := t.Intn(n + 1)
				t.Op("Resize", s)
				v.Resize(s)
				m = m[:s]
			} else {
				s := n + t.Intn(20)
				t.Op("Resize", s)
				v.Resize(s)
				t.Count("Resize to a larger size")
			}
		case 15:
			x := val()
			p = min(p, n-1)
			if bad || n == 0 {
				p = []int{-1, n, n + 1}[t.Intn(3)]
			}
			if t.Chance(2) {
				t.Op("SetAt", p, x)
				v.SetAt(p, x)
			} else {
				t.Op("SetValue", p, x)
				v.IterAt(p).SetValue(x)
			}
			if p >= 0 && p < n {
				m[p] = x
			} else {
				t.Count("operations out of range")
			}
		case 16:
			p = []int{-1, n, n + 1, n + 64}[t.Intn(4)]
			t.Op("At", p)
			t.mustPanic(fmt.Sprintf("At(%d) with %d elements", p, n), func() { v.At(p) })
			if n == 0 {
				t.mustPanic("Front on an empty vector", func() { v.Front() })
				t.mustPanic("Back on an empty vector", func() { v.Back() })
			}
		case 17:
			if t.Chance(2) {
				t.Op("String")
				if g, w := v.String(), fmt.Sprint(m); g != w {
					t.Failf("String() = %s, want %s", clip(g, 300), clip(w, 300))
				}
			} else {
				t.Op("NewFromVector")
				old := v
				v = vector.NewFromVector(old)
				// what happens to the original no longer matters to the copy
				for old.Size() > 0 {
					old.SetAt(old.Size()-1, -1)
					old.PopBack()
				}
				old.PushBack(-2)
				t.Count("copies")
			}
		}
		check()
	}
}

// ---- C09 Array and SliceWrapper ----

func runArray(t *T) {
	n := t.Intn(40)
	mk := func(n int) (*array.Array[int], []int) { return array.New[int](n), make([]int, n) }
	a, m := mk(n)
	n2 := n
	if t.Chance(3) {
		n2 = t.Intn(40)
	}
	b, mb := mk(n2)
	next := 0
	val := func() int { next++; return next }
	check := func(a *array.Array[int], m []int) {
		if a.Size() != len(m) || a.Empty() != (len(m) == 0) {
			t.Failf("Size() = %d, Empty() = %v, want %d elements", a.Size(), a.Empty(), len(m))
		}
		d := a.Data()
		if len(d) != len(m) {
			t.Failf("Data() has %d elements, want %d", len(d), len(m))
		}
		for i, x := range m {
			if a.At(i) != x || d[i] != x {
				t.Failf("At(%d) = %d, Data()[%d] = %d, want %d", i, a.At(i), i, d[i], x)
			}
		}
		if len(m) > 0 && (a.Front() != m[0] || a.Back() != m[len(m)-1]) {
			t.Failf("Front() = %d, Back() = %d, want %d, %d", a.Front(), a.Back(), m[0], m[len(m)-1])
		}
		if g, w := a.String(), fmt.Sprint(m); g != w {
			t.Failf("String() = %s, want %s", g, w)
		}
	}
	check(a, m)
	for i, nst := 0, t.steps(40); t.more(i, nst); i++ {
		switch t.Intn(8) {
		case 0, 1:
			p, x := t.Intn(n+1), val()
			if t.Chance(6) {
				p = []int{-1, n, n + 1, n + 100}[t.Intn(4)]
			}
			t.Op("Set", p, x)
			a.Set(p, x)
			if p >= 0 && p < n {
				m[p] = x
				t.Nontrivial()
			} else {
				t.Count("operations out of range")
			}
		case 2:
			p, x := t.Intn(n+2)-1, val()
			t.Op("SetValue", p, x)
			a.IterAt(p).SetValue(x)
			if p >= 0 && p < n {
				m[p] = x
			}
		case 3:
			if t.Chance(4) {
				x := val()
				t.Op("Fill", x)
				a.Fill(x)
				for i := range m {
					m[i] = x
				}
			}
		case 4:
			t.Op("SwapArray", n, n2)
			a.SwapArray(b)
			if n == n2 {
				m, mb = mb, m
				t.Count("arrays swapped")
			} else {
				t.Count("swaps of arrays of different size")
			}
		case 5:
			t.Op("NewFromArray")
			c := array.NewFromArray(a)
			check(c, m)
			old := a
			a = c
			old.Fill(-5) // the copy does not see it
			t.Count("copies")
		case 6:
			p := []int{-1, n, n + 1}[t.Intn(3)]
			t.Op("At", p)
			t.mustPanic(fmt.Sprintf("At(%d) of %d elements", p, n), func() { a.At(p) })
			if n == 0 {
				t.mustPanic("Front of an empty array", func() { a.Front() })
				t.mustPanic("Back of an empty array", func() { a.Back() })
			}
		case 7:
			t.Op("walk")
			i := 0
			for it := a.Begin(); !it.Equal(a.End()); it.Next() {
				if i >= n || it.Value() != m[i] {
					t.Failf("iteration gives the wrong element at step %d", i)
				}
				i++
			}
			if i != n {
				t.Failf("iteration gave %d elements, want %d", i, n)
			}
		}
		check(a, m)
		check(b, mb)
	}
}

func runSliceWrap(t *T) {
	n := t.Intn(30)
	raw := make([]int, n, n+t.Intn(5))
	next := 0
	for i := range raw {
		next++
		raw[i] = next
	}
	w := slice.NewSliceWrapper(raw)
	m := append([]int(nil), raw...)
	for i, nst := 0, t.steps(40); t.more(i, nst); i++ {
		n := len(m)
		switch t.Intn(6) {
		case 0, 1: // through the wrapper
			p := t.Intn(n+3) - 1
			next++
			t.Op("Set", p, next)
			w.Set(p, next)
			if p >= 0 && p < n {
				m[p] = next
				t.Nontrivial()
			}
		case 2: // through the slice
			if n > 0 {
				p := t.Intn(n)
				next++
				t.Op("slice write", p, next)
				raw[p] = next
				m[p] = next
				t.Count("writes through the underlying slice")
			}
		case 3:
			old := raw
			raw = make([]int, t.Intn(30))
			for i := range raw {
				next++
				raw[i] = next
			}
			t.Op("Attach", len(raw))
			w.Attach(raw)
			m = append([]int(nil), raw...)
			for i := range old {
				old[i] = -1
			}
			t.Count("attachments")
		case 4:
			p := []int{-1, n, n + 1}[t.Intn(3)]
			t.Op("At", p)
			t.mustPanic(fmt.Sprintf("At(%d) of %d elements", p, n), func() { w.At(p) })
		case 5:
			t.Op("walk")
			i := 0
			for it := w.Begin(); !it.Equal(w.End()); it.Next() {
				if i >= n || it.Value() != m[i] {
					t.Failf("iteration gives the wrong element at step %d", i)
				}
				i++
			}
			if i != n {
				t.Failf("iteration gave %d elements, want %d", i, n)
			}
			if n > 0 && (w.First().Value() != m[0] || w.Last().Value() != m[n-1] || w.Last().Position() != n-1) {
				t.Failf("First or Last is not on the first or last element")
			}
		}
		if w.Len() != len(m) {
			t.Failf("Len() = %d, want %d", w.Len(), len(m))
		}
		for i, x := range m {
			if w.At(i) != x || raw[i] != x {
				t.Failf("At(%d) = %d, slice has %d, want %d", i, w.At(i), raw[i], x)
			}
		}
	}
}

func init() {
	register(&Prop{ID: "C07",
		Rule: "random histories of 60-310 steps (steps may be runs of pushes or pops) around one of 11 working sizes from 4 to 1300, in 6 operation profiles, positions concentrated at the ends, the middle and multiples of 128 from either end, compared element by element with a slice after every step; then drained and refilled. Suite edges: freshly built deques for 18x18x5 combinations of front pushes, back pushes and ring offset with insertions and erasures. Non-trivial when the deque holds more than one segment",
		Suites: []Suite{
			{Name: "histories", Quick: 24000, Thorough: 250000, Run: runDeque},
			{Name: "edges", Quick: 18 * 18 * 5 * 2, Thorough: 18 * 18 * 5 * 30, Run: runDequeEdge},
		}, Require: []string{"states beyond one segment", "insertions in the middle", "erasures in the middle", "range erasures", "drained and refilled", "operations out of range"}})
	register(&Prop{ID: "C08",
		Rule:    "random histories of 30-150 operations (positions biased to the ends, one in ten out of range) compared with a slice after every operation, with the capacity relations; non-trivial when elements were inserted before others",
		Suites:  []Suite{{Name: "histories", Quick: 400000, Thorough: 1500000, Run: runVector}},
		Require: []string{"insertions before the end", "erasures", "range erasures", "capacity changes", "operations out of range", "copies"}})
	register(&Prop{ID: "C09",
		Rule: "random histories of 40 operations on two arrays, or on a wrapper with its slice also written directly, compared with plain slices after every operation; non-trivial when an element was written",
		Suites: []Suite{
			{Name: "array", Quick: 200000, Thorough: 1000000, Run: runArray},
			{Name: "slice", Quick: 200000, Thorough: 1000000, Run: runSliceWrap},
		}, Require: []string{"arrays swapped", "swaps of arrays of different size", "attachments", "writes through the underlying slice"}})
}
