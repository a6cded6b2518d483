package main

// Large objects, long histories and many element types: the monitors here keep
// a model that is cheap enough to follow a container through some hundred
// thousand operations, and compare the two in full at the end of each phase.

import (
	"fmt"
	"math"
	"math/bits"
	"sort"

	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/container"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/ds/stack"
	"github.com/liyue201/gostl/ds/vector"
)

// A kind is an element type: values made from numbers, many of them equal to
// each other or to the zero value, and a way to tell two apart.
type kind[X any] struct {
	name string
	mk   func(i int) X
	eq   func(a, b X) bool
}

func comparableKind[X comparable](name string, mk func(i int) X) kind[X] {
	return kind[X]{name, mk, func(a, b X) bool { return a == b }}
}

type wideElem struct {
	a [20]int
	s string
}

var ptrPool = func() (p [257]*int) {
	for i := 1; i < len(p); i++ {
		p[i] = new(int)
	}
	return
}()

var (
	kindInt    = comparableKind("int", func(i int) int { return i })
	kindString = comparableKind("string", func(i int) string {
		if i%5 == 0 {
			return ""
		}
		return fmt.Sprint("v", i)
	})
	kindPtr = comparableKind("pointer", func(i int) *int { return ptrPool[(i%257+257)%257] })
	kindAny = comparableKind("interface", func(i int) any {
		switch i & 7 {
		case 0:
			return nil
		case 1:
			return 0
		case 2:
			return ""
		case 3:
			return fmt.Sprint(i)
		case 4:
			return struct{ a, b int }{i, -i}
		}
		return i
	})
	kindWide  = comparableKind("large struct", func(i int) wideElem { return wideElem{[20]int{i, 0, -i}, "x"} })
	kindEmpty = comparableKind("empty struct", func(i int) struct{} { return struct{}{} })
	kindByte  = comparableKind("byte", func(i int) byte { return byte(i) })
	// not comparable with ==, and not equal to itself
	kindSlice = kind[[]int]{"slice", func(i int) []int {
		if i%4 == 0 {
			return nil
		}
		return []int{i}
	}, func(a, b []int) bool { return (a == nil) == (b == nil) && (a == nil || a[0] == b[0]) }}
	kindFloat = kind[float64]{"float64 with NaN", func(i int) float64 {
		switch i & 3 {
		case 0:
			return math.NaN()
		case 1:
			return math.Copysign(0, -1)
		}
		return float64(i)
	}, func(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }}
)

// byKind runs the instance of a generic monitor for the case's element type.
func byKind(t *T, f [9]func(t *T)) {
	n := t.Intn(12)
	if n >= len(f) {
		n = 0
	}
	f[n](t)
}

func bigKinds(name string, a func(*T, kind[int]), b func(*T, kind[string]), c func(*T, kind[*int]), d func(*T, kind[any]), e func(*T, kind[wideElem]), g func(*T, kind[struct{}]), h func(*T, kind[[]int]), i func(*T, kind[float64]), j func(*T, kind[byte])) func(*T) {
	return func(t *T) {
		byKind(t, [9]func(*T){
			func(t *T) { t.Op(name, kindInt.name); a(t, kindInt) },
			func(t *T) { t.Op(name, kindString.name); b(t, kindString) },
			func(t *T) { t.Op(name, kindPtr.name); c(t, kindPtr) },
			func(t *T) { t.Op(name, kindAny.name); d(t, kindAny) },
			func(t *T) { t.Op(name, kindWide.name); e(t, kindWide) },
			func(t *T) { t.Op(name, kindEmpty.name); g(t, kindEmpty) },
			func(t *T) { t.Op(name, kindSlice.name); h(t, kindSlice) },
			func(t *T) { t.Op(name, kindFloat.name); i(t, kindFloat) },
			func(t *T) { t.Op(name, kindByte.name); j(t, kindByte) },
		})
	}
}

// landmark picks a size up to top at which tables fill, double or change their
// shape: a power of two, a multiple of a segment or a round number, or next to it.
func landmark(t *T, top int) int {
	if t.small {
		top = min(top, 100)
	}
	n := 0
	switch t.Intn(6) {
	case 0, 1, 2:
		n = 1 << t.Intn(bits.Len(uint(top)))
	case 3:
		n = 128 * (1 + t.Intn(max(1, top/128)))
	case 4:
		n = []int{10, 100, 1000, 10000, 50000, 100000}[t.Intn(6)]
	case 5:
		n = 64 * (1 + t.Intn(max(1, top/64)))
	}
	if t.Chance(3) {
		n += t.Intn(3) - 1
	}
	if n > top {
		n = top
	}
	t.Count("sizes at which tables change")
	return max(1, n)
}

// onSmall runs the monitor of large objects of many types on small ones.
func onSmall(run func(*T)) func(*T) {
	return func(t *T) {
		t.small = true
		run(t)
	}
}

// bigSize picks how large the object gets in this case.
func bigSize(t *T) int {
	if t.small {
		return t.Intn([]int{3, 8, 30, 150}[t.Intn(4)])
	}
	if t.Chance(2) {
		top := []int{600, 6000, 20000, 120000}[t.Intn(8)/2%4]
		if top > 20000 && t.Chance(2) {
			top = 600
		}
		return landmark(t, top)
	}
	switch t.Intn(16) {
	case 0:
		return 60000 + t.Intn(60000)
	case 1, 2, 3:
		return 8000 + t.Intn(12000)
	case 4, 5, 6, 7:
		return 1000 + t.Intn(5000)
	}
	return 1 + t.Intn(600)
}

// a small number, so that equal and zero values are common, or a fresh one
func bigVal(t *T, next *int) int {
	if t.Chance(4) {
		return t.Intn(5) - 1
	}
	*next++
	return *next
}

// line is a model of a sequence with cheap operations at both ends.
type line[X any] struct {
	a    []X
	lo   int
	half int
}

func (l *line[X]) s() []X { return l.a[l.lo:] }
func (l *line[X]) len() int {
	return len(l.a) - l.lo
}
func (l *line[X]) pushBack(x X) { l.a = append(l.a, x) }
func (l *line[X]) pushFront(x X) {
	if l.lo == 0 {
		n := len(l.a) + 16
		b := make([]X, n+len(l.a), n+2*len(l.a)+16)
		copy(b[n:], l.a)
		l.a, l.lo = b, n
	}
	l.lo--
	l.a[l.lo] = x
}
func (l *line[X]) popFront() X {
	x := l.a[l.lo]
	l.lo++
	if l.lo > 4096 && l.lo > 3*l.len() {
		l.a, l.lo = append([]X(nil), l.s()...), 0
	}
	return x
}
func (l *line[X]) popBack() X {
	x := l.a[len(l.a)-1]
	l.a = l.a[:len(l.a)-1]
	return x
}
func (l *line[X]) insert(i int, x X) { l.a = insertAt(l.a, l.lo+i, x) }
func (l *line[X]) erase(i, j int)    { l.a = eraseRange(l.a, l.lo+i, l.lo+j) }
func (l *line[X]) clear()            { l.a, l.lo = nil, 0 }

// ---- C07 ----

func bigDeque[X any](t *T, k kind[X]) {
	d := deque.New[X]()
	m := &line[X]{}
	next := 0
	target := bigSize(t)
	same := func(what string, got, want X) {
		if !k.eq(got, want) {
			t.Failf("%s = %v, want %v (%d elements)", what, got, want, m.len())
		}
	}
	check := func() {
		n := m.len()
		if d.Size() != n || d.Empty() != (n == 0) {
			t.Failf("Size() = %d, Empty() = %v, want %d elements", d.Size(), d.Empty(), n)
		}
		if n == 0 {
			t.mustPanic("PopFront on an empty deque", func() { d.PopFront() })
			t.mustPanic("PopBack on an empty deque", func() { d.PopBack() })
			return
		}
		s := m.s()
		i := 0
		for it := d.Begin(); !it.Equal(d.End()); it.Next() {
			if i >= n {
				t.Failf("iteration does not end after %d elements", n)
			}
			same(fmt.Sprintf("element %d of the iteration", i), it.Value(), s[i])
			i++
			if n > 20000 && i > 300 && i < n-300 {
				t.Tick()
			}
		}
		if i != n {
			t.Failf("iteration gives %d elements, want %d", i, n)
		}
		for i := n - 1; i >= 0; i-- {
			same(fmt.Sprintf("At(%d)", i), d.At(i), s[i])
		}
		t.State(mix(uint64(n), hashStr(k.name)))
		t.Count("full comparisons")
		t.CountN("elements compared", 2*n)
	}
	ops := 0
	budget := 6*target + 200
	phases := 0
	for ops < budget {
		phases++
		n := m.len()
		what := t.Intn(9)
		cnt := 1 + t.Intn(max(1, target))
		switch {
		case what <= 2: // fill
			bias := t.Intn(5) // of 4: how often at the front
			t.Op("fill", cnt, bias)
			for i := 0; i < cnt && m.len() < target; i++ {
				x := k.mk(bigVal(t, &next))
				if t.Intn(4) < bias {
					d.PushFront(x)
					m.pushFront(x)
				} else {
					d.PushBack(x)
					m.pushBack(x)
				}
				ops++
			}
		case what <= 4: // drain
			bias := t.Intn(5)
			t.Op("drain", cnt, bias)
			for i := 0; i < cnt && m.len() > 0; i++ {
				if t.Intn(4) < bias {
					same("PopFront()", d.PopFront(), m.popFront())
				} else {
					same("PopBack()", d.PopBack(), m.popBack())
				}
				ops++
			}
		case what == 5: // rotate, to walk the window around the ring
			back := t.Chance(2)
			t.Op("rotate", cnt, back)
			for i := 0; i < cnt && m.len() > 0; i++ {
				if back {
					x := d.PopFront()
					same("PopFront()", x, m.popFront())
					d.PushBack(x)
					m.pushBack(x)
				} else {
					x := d.PopBack()
					same("PopBack()", x, m.popBack())
					d.PushFront(x)
					m.pushFront(x)
				}
				ops += 2
			}
		case what == 6: // insertions and erasures inside
			cnt = min(cnt, 400)
			t.Op("inside", cnt)
			for i := 0; i < cnt; i++ {
				if n := m.len(); n < target && t.Chance(2) {
					x, p := k.mk(bigVal(t, &next)), t.Intn(n+1)
					d.Insert(p, x)
					m.insert(p, x)
				} else if n > 0 {
					p := t.Intn(n)
					d.EraseAt(p)
					m.erase(p, p+1)
				}
				ops += 4
			}
		case what == 7 && n > 0: // ranges and writes
			lo := t.Intn(n)
			hi := lo + 1 + t.Intn(min(n-lo, max(1, target/8)))
			t.Op("EraseRange", lo, hi)
			d.EraseRange(lo, hi)
			m.erase(lo, hi)
			for i := 0; i < 20 && m.len() > 0; i++ {
				p, x := t.Intn(m.len()), k.mk(bigVal(t, &next))
				d.Set(p, x)
				m.s()[p] = x
			}
			ops += n/4 + 20
		case what == 8 && t.Chance(4):
			t.Op("Clear")
			d.Clear()
			m.clear()
			ops += 10
		}
		for i := 0; i < 3; i++ { // out of range: no change
			n := m.len()
			far := []int{1, 2, 127, 128, 129, 1 + t.Intn(2*n+1), 1 << 62}[t.Intn(7)]
			x := k.mk(bigVal(t, &next))
			switch t.Intn(7) {
			case 0:
				d.Insert(n+far, x)
			case 1:
				d.Insert(-far, x)
			case 2:
				if d.Set(n-1+far, x) == nil || d.Set(-far, x) == nil {
					t.Failf("Set(%d) or Set(%d) with %d elements gave no error", n-1+far, -far, n)
				}
			case 3:
				d.EraseAt(n - 1 + far)
				d.EraseAt(-far)
			case 4:
				d.EraseRange(t.Intn(n+1), n+far)
				d.EraseRange(-far, t.Intn(n+1))
			case 5:
				if lo := t.Intn(n + 1); far < 1<<60 {
					d.EraseRange(lo, lo-far)
					d.EraseRange(lo, lo)
				}
			case 6:
				t.mustPanic("At behind the end", func() { d.At(n - 1 + far) })
				t.mustPanic("At before the start", func() { d.At(-far) })
			}
			t.Count("operations out of range")
		}
		if n := m.len(); n > 0 {
			same("Front()", d.Front(), m.s()[0])
			same("Back()", d.Back(), m.s()[n-1])
			if n > 300 {
				t.Nontrivial()
			}
		}
		if d.Size() != m.len() {
			t.Failf("Size() = %d, want %d", d.Size(), m.len())
		}
		ops++
		if m.len() < 4000 || t.Chance(3) {
			check()
		}
	}
	check()
	t.CountN("operations in long histories", ops)
	t.Count("deques of " + k.name)
}

// ---- C08 ----

func bigVector[X any](t *T, k kind[X]) {
	var v *vector.Vector[X]
	if t.Chance(2) {
		v = vector.New[X]()
	} else {
		c := t.Intn(1000)
		v = vector.New[X](vector.WithCapacity(c))
		if v.Capacity() < c {
			t.Failf("New(WithCapacity(%d)) has capacity %d", c, v.Capacity())
		}
	}
	m := &line[X]{}
	next := 0
	target := bigSize(t)
	same := func(what string, got, want X) {
		if !k.eq(got, want) {
			t.Failf("%s = %v, want %v (%d elements)", what, got, want, m.len())
		}
	}
	check := func() {
		n := m.len()
		if v.Size() != n || v.Empty() != (n == 0) || v.Capacity() < n {
			t.Failf("Size() = %d, Empty() = %v, Capacity() = %d, want %d elements", v.Size(), v.Empty(), v.Capacity(), n)
		}
		if len(v.Data()) != n {
			t.Failf("Data() has %d elements, want %d", len(v.Data()), n)
		}
		s := m.s()
		for i := range s {
			same(fmt.Sprintf("At(%d)", i), v.At(i), s[i])
		}
		i := n
		for it := v.Last(); it.IsValid(); it.Prev() {
			i--
			if i < 0 {
				t.Failf("backward iteration does not end after %d elements", n)
			}
			same(fmt.Sprintf("element %d of the backward iteration", i), it.Value(), s[i])
		}
		if i != 0 {
			t.Failf("backward iteration misses %d elements", i)
		}
		t.State(mix(uint64(n), hashStr(k.name)))
		t.Count("full comparisons")
		t.CountN("elements compared", 2*n)
	}
	ops, budget := 0, 6*target+200
	for ops < budget {
		n := m.len()
		cnt := 1 + t.Intn(max(1, target))
		switch what := t.Intn(9); {
		case what <= 2:
			t.Op("fill", cnt)
			for i := 0; i < cnt && m.len() < target; i++ {
				x := k.mk(bigVal(t, &next))
				c, room := v.Capacity(), v.Capacity() > v.Size()
				v.PushBack(x)
				m.pushBack(x)
				if room && v.Capacity() != c {
					t.Failf("PushBack with room for more changed the capacity from %d to %d", c, v.Capacity())
				}
				ops++
			}
		case what == 3:
			t.Op("drain", cnt)
			for i := 0; i < cnt && m.len() > 0; i++ {
				same("PopBack()", v.PopBack(), m.popBack())
				ops++
			}
		case what == 4:
			cnt = min(cnt, 300)
			t.Op("inside", cnt)
			for i := 0; i < cnt; i++ {
				n := m.len()
				switch {
				case n < target && t.Chance(2):
					x, p := k.mk(bigVal(t, &next)), t.Intn(n+1)
					if t.Chance(2) {
						v.InsertAt(p, x)
					} else if it := v.Insert(v.IterAt(p), x); it.Position() != p {
						t.Failf("Insert at %d gave an iterator at %d", p, it.Position())
					}
					m.insert(p, x)
				case n > 0:
					p := t.Intn(n)
					if t.Chance(2) {
						v.EraseAt(p)
					} else if it := v.Erase(v.IterAt(p)); it.Position() != p {
						t.Failf("Erase at %d gave an iterator at %d", p, it.Position())
					}
					m.erase(p, p+1)
				}
				ops += 4
			}
		case what == 5 && n > 0:
			lo := t.Intn(n)
			hi := lo + 1 + t.Intn(min(n-lo, max(1, target/8)))
			t.Op("EraseIndexRange", lo, hi)
			v.EraseIndexRange(lo, hi)
			m.erase(lo, hi)
			for i := 0; i < 20 && m.len() > 0; i++ {
				p, x := t.Intn(m.len()), k.mk(bigVal(t, &next))
				v.SetAt(p, x)
				m.s()[p] = x
			}
			ops += 20
		case what == 6:
			t.Op("Reserve", cnt)
			c := v.Capacity()
			v.Reserve(cnt)
			if v.Capacity() < max(c, cnt) {
				t.Failf("Reserve(%d) left capacity %d (before: %d)", cnt, v.Capacity(), c)
			}
			ops += 10
		case what == 7:
			if t.Chance(2) {
				t.Op("ShrinkToFit")
				v.ShrinkToFit()
				if v.Capacity() != v.Size() {
					t.Failf("ShrinkToFit left capacity %d with size %d", v.Capacity(), v.Size())
				}
			} else {
				if t.Chance(2) { // no effect: Resize never grows
					cnt = []int{n, n + 1, v.Capacity(), v.Capacity() + 1, n + cnt}[t.Intn(5)]
				}
				t.Op("Resize", cnt)
				v.Resize(cnt)
				if cnt < n {
					m.erase(cnt, n)
				}
			}
			ops += 10
		case what == 8 && t.Chance(5):
			t.Op("Clear")
			v.Clear()
			m.clear()
			ops += 10
		}
		for i := 0; i < 3; i++ { // out of range: no change
			n := m.len()
			far := []int{1, 2, 1 + t.Intn(2*n+1), 1 << 62}[t.Intn(4)]
			x := k.mk(bigVal(t, &next))
			switch t.Intn(7) {
			case 0:
				v.InsertAt(n+far, x)
			case 1:
				v.InsertAt(-far, x)
			case 2:
				v.SetAt(n-1+far, x)
				v.SetAt(-far, x)
			case 3:
				v.EraseAt(n - 1 + far)
				v.EraseAt(-far)
			case 4:
				v.EraseIndexRange(t.Intn(n+1), n+far)
				v.EraseIndexRange(-far, t.Intn(n+1))
			case 5:
				lo := t.Intn(n + 1)
				v.EraseIndexRange(lo, lo-far)
				v.EraseIndexRange(lo, lo)
			case 6:
				t.mustPanic("At behind the end", func() { v.At(n - 1 + far) })
				t.mustPanic("At before the start", func() { v.At(-far) })
			}
			if v.Size() != n {
				t.Failf("Size() = %d after an operation out of range, want %d", v.Size(), n)
			}
			t.Count("operations out of range")
		}
		if n := m.len(); n > 0 {
			same("Front()", v.Front(), m.s()[0])
			same("Back()", v.Back(), m.s()[n-1])
			if n > 300 {
				t.Nontrivial()
			}
		}
		ops++
		if m.len() < 4000 || t.Chance(3) {
			check()
		}
	}
	check()
	t.CountN("operations in long histories", ops)
	t.Count("vectors of " + k.name)
}

// ---- C12 ----

func bigQueueStack[X any](t *T, k kind[X]) {
	lifo := t.Chance(2)
	m := &line[X]{}
	next := 0
	var push func(X)
	var pop, front, back func() X
	var size func() int
	var empty func() bool
	var clear func()
	cont := t.Intn(4)
	safe := t.Chance(2)
	var given container.Container[X]
	if cont >= 2 {
		if cont == 2 {
			given = deque.New[X]()
		} else {
			given = bidlist.New[X]()
		}
		for i := t.Intn(3) * t.Intn(400); i > 0; i-- {
			x := k.mk(bigVal(t, &next))
			given.PushBack(x)
			m.pushBack(x)
		}
	}
	if lifo {
		var o []stack.Option[X]
		if cont == 1 {
			o = append(o, stack.WithListContainer[X]())
		} else if cont >= 2 {
			o = append(o, stack.WithContainer[X](given))
		}
		if safe {
			o = append(o, stack.WithGoroutineSafe[X]())
		}
		s := stack.New[X](o...)
		push, pop, back, size, empty, clear = s.Push, s.Pop, s.Top, s.Size, s.Empty, s.Clear
	} else {
		var o []queue.Option[X]
		if cont == 1 {
			o = append(o, queue.WithListContainer[X]())
		} else if cont >= 2 {
			o = append(o, queue.WithContainer[X](given))
		}
		if safe {
			o = append(o, queue.WithGoroutineSafe[X]())
		}
		q := queue.New[X](o...)
		push, pop, front, back, size, empty, clear = q.Push, q.Pop, q.Front, q.Back, q.Size, q.Empty, q.Clear
	}
	name := []string{"queue", "stack"}[b2i(lifo)] + []string{" over the default container", " over a list", " over a given deque", " over a given bidlist"}[cont]
	target := bigSize(t)
	same := func(what string, got, want X) {
		if !k.eq(got, want) {
			t.Failf("%s: %s = %v, want %v (%d elements)", name, what, got, want, m.len())
		}
	}
	ops, budget := 0, 6*target+200
	for ops < budget {
		cnt := 1 + t.Intn(max(1, target))
		doPush := func() {
			x := k.mk(bigVal(t, &next))
			push(x)
			m.pushBack(x)
		}
		doPop := func() {
			if lifo {
				same("Pop()", pop(), m.popBack())
			} else {
				same("Pop()", pop(), m.popFront())
			}
			t.Nontrivial()
		}
		switch what := t.Intn(8); {
		case what <= 2:
			t.Op("push", cnt)
			for i := 0; i < cnt && m.len() < target; i++ {
				doPush()
				ops++
			}
		case what <= 4:
			t.Op("pop", cnt)
			for i := 0; i < cnt && m.len() > 0; i++ {
				doPop()
				ops++
			}
		case what <= 6:
			t.Op("both", cnt)
			for i := 0; i < cnt; i++ {
				if m.len() == 0 || m.len() < target && t.Chance(2) {
					doPush()
				} else {
					doPop()
				}
				ops++
			}
		case t.Chance(6):
			t.Op("Clear")
			clear()
			m.clear()
			ops += 10
		}
		n := m.len()
		if size() != n || empty() != (n == 0) {
			t.Failf("%s: Size() = %d, Empty() = %v, want %d elements", name, size(), empty(), n)
		}
		if n > 0 {
			same("the last element", back(), m.s()[n-1])
			if !lifo {
				same("Front()", front(), m.s()[0])
			}
		} else {
			t.mustPanic(name+": Pop of nothing", func() { pop() })
			t.mustPanic(name+": the last element of nothing", func() { back() })
		}
		ops++
	}
	t.Op("drain", m.len())
	for m.len() > 0 {
		if lifo {
			same("Pop()", pop(), m.popBack())
		} else {
			same("Pop()", pop(), m.popFront())
		}
	}
	if !empty() || size() != 0 {
		t.Failf("%s: not empty after every element was popped", name)
	}
	t.CountN("operations in long histories", ops)
	t.Count("long histories of a " + name)
	t.Count("adapters of " + k.name)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ---- C09 ----

func bigArray[X any](t *T, k kind[X]) {
	n := bigSize(t)
	next := 0
	same := func(what string, got, want X) {
		if !k.eq(got, want) {
			t.Failf("%s = %v, want %v (%d elements)", what, got, want, n)
		}
	}
	a, b := array.New[X](n), array.New[X](n)
	w := slice.NewSliceWrapper(make([]X, n))
	zero := k.mk(0)
	m, mb, mw := make([]X, n), make([]X, n), make([]X, n)
	for i := 0; i < n; i += 1 + n/20 {
		var z X
		same("an element of a new array", a.At(i), z)
	}
	a.Fill(zero)
	b.Fill(zero)
	for i := range m {
		m[i], mb[i] = zero, zero
	}
	if n == 0 {
		if a.Size() != 0 || !a.Empty() || w.Len() != 0 || a.Begin().IsValid() || w.Begin().IsValid() || !a.Begin().Equal(a.End()) || !w.Begin().Equal(w.End()) {
			t.Failf("an array or slice of no elements is not empty")
		}
		a.Set(0, zero)
		w.Set(0, zero)
		a.SwapArray(b)
		t.mustPanic("At of an empty array", func() { a.At(0) })
		t.mustPanic("Front of an empty array", func() { a.Front() })
		t.mustPanic("Back of an empty array", func() { a.Back() })
		t.mustPanic("At of an empty slice", func() { w.At(0) })
		t.Count("arrays of no elements")
		return
	}
	for ph := 0; ph < 4; ph++ {
		for i, cnt := 0, 30+t.Intn(n); i < cnt; i++ {
			p, x := t.Intn(n), k.mk(bigVal(t, &next))
			switch t.Intn(4) {
			case 0, 1:
				a.Set(p, x)
				m[p] = x
			case 2:
				a.IterAt(p).SetValue(x)
				m[p] = x
			case 3:
				w.Set(p, x)
				mw[p] = x
			}
		}
		for i := 0; i < 3; i++ {
			far := []int{1, 2, 1 + t.Intn(2*n+1), 1 << 62}[t.Intn(4)]
			x := k.mk(bigVal(t, &next))
			a.Set(n-1+far, x)
			w.Set(n-1+far, x)
			t.mustPanic("At behind the end", func() { a.At(n - 1 + far) })
			t.mustPanic("At before the start", func() { a.At(-far) })
			t.mustPanic("At behind the end of a slice", func() { w.At(n - 1 + far) })
			t.Count("operations out of range")
		}
		c, mc := a, m
		switch t.Intn(5) {
		case 0:
			t.Op("SwapArray")
			a.SwapArray(b)
			m, mb = mb, m
			mc = m
		case 1:
			t.Op("SwapArray with another size")
			o := array.New[X](n + 1 - 2*t.Intn(2))
			a.SwapArray(o)
		case 2:
			t.Op("NewFromArray")
			c = array.NewFromArray(a)
			a.Fill(zero)
			m = make([]X, n)
			for i := range m {
				m[i] = zero
			}
		case 3:
			x := k.mk(bigVal(t, &next))
			t.Op("Fill")
			a.Fill(x)
			for i := range m {
				m[i] = x
			}
		}
		for _, p := range []struct {
			a *array.Array[X]
			m []X
		}{{c, mc}, {a, m}, {b, mb}} {
			if p.a.Size() != n || p.a.Empty() || len(p.a.Data()) != n {
				t.Failf("Size() = %d, Empty() = %v, len(Data()) = %d, want %d elements", p.a.Size(), p.a.Empty(), len(p.a.Data()), n)
			}
			same("Front()", p.a.Front(), p.m[0])
			same("Back()", p.a.Back(), p.m[n-1])
			i := 0
			for it := p.a.Begin(); !it.Equal(p.a.End()); it.Next() {
				if i >= n {
					t.Failf("iteration does not end after %d elements", n)
				}
				same(fmt.Sprintf("element %d of the iteration", i), it.Value(), p.m[i])
				same(fmt.Sprintf("At(%d)", i), p.a.At(i), p.m[i])
				i++
			}
			if i != n {
				t.Failf("iteration gives %d elements, want %d", i, n)
			}
		}
		if w.Len() != n {
			t.Failf("Len() = %d, want %d", w.Len(), n)
		}
		i := n
		for it := w.Last(); it.IsValid(); it.Prev() {
			i--
			if i < 0 {
				t.Failf("backward iteration does not end after %d elements", n)
			}
			same(fmt.Sprintf("element %d of a slice", i), it.Value(), mw[i])
			same(fmt.Sprintf("At(%d) of a slice", i), w.At(i), mw[i])
		}
		if i != 0 {
			t.Failf("backward iteration misses %d elements", i)
		}
		t.Count("full comparisons")
		if n > 300 {
			t.Nontrivial()
		}
		if t.Chance(3) {
			t.Op("Attach")
			raw := make([]X, n)
			for i := range raw {
				raw[i] = k.mk(bigVal(t, &next))
			}
			w.Attach(raw)
			mw = append([]X(nil), raw...)
		}
		t.State(mix(uint64(n), hashStr(k.name)))
	}
	t.Count("arrays of " + k.name)
}

// ---- C10 and C11 ----

func bigBidlist[X any](t *T, k kind[X]) {
	l := bidlist.New[X]()
	var nodes []*bidlist.Node[X]
	var vals []X
	next := 0
	target := min(bigSize(t), 3000+t.Intn(3)*t.Intn(2000))
	put := func(i int, n *bidlist.Node[X], x X) {
		if !k.eq(n.Value, x) {
			t.Failf("a node was made with %v, want %v", n.Value, x)
		}
		nodes = insertAt(nodes, i, n)
		vals = insertAt(vals, i, x)
	}
	take := func(i int) (*bidlist.Node[X], X) {
		n, x := nodes[i], vals[i]
		nodes = eraseRange(nodes, i, i+1)
		vals = eraseRange(vals, i, i+1)
		return n, x
	}
	check := func() {
		n := len(nodes)
		if l.Len() != n || l.Size() != n || l.Empty() != (n == 0) {
			t.Failf("Len() = %d, Size() = %d, Empty() = %v, want %d", l.Len(), l.Size(), l.Empty(), n)
		}
		i := 0
		for x := l.FrontNode(); x != nil; x = x.Next() {
			if i >= n || x != nodes[i] || !k.eq(x.Value, vals[i]) {
				t.Failf("walking forwards: wrong node or value in place %d of %d", i, n)
			}
			i++
		}
		if i != n {
			t.Failf("walking forwards gives %d nodes, want %d", i, n)
		}
		for x := l.BackNode(); x != nil; x = x.Prev() {
			i--
			if i < 0 || x != nodes[i] {
				t.Failf("walking backwards: wrong node in place %d of %d", i, n)
			}
		}
		if i != 0 {
			t.Failf("walking backwards misses %d nodes", i)
		}
		t.Count("full comparisons")
		t.State(mix(uint64(n), hashStr(k.name)))
	}
	// another list, and nodes that left the first one
	other := bidlist.New[X]()
	var onodes []*bidlist.Node[X]
	var ovals []X
	for i := t.Intn(or(t.small, 40, 600)); i > 0; i-- {
		x := k.mk(bigVal(t, &next))
		other.PushBack(x)
		onodes = append(onodes, other.BackNode())
		ovals = append(ovals, x)
	}
	checkOther := func() {
		i := 0
		for x := other.FrontNode(); x != nil; x = x.Next() {
			if i >= len(onodes) || x != onodes[i] || !k.eq(x.Value, ovals[i]) {
				t.Failf("the other list: wrong node or value in place %d of %d", i, len(onodes))
			}
			i++
		}
		if i != len(onodes) || other.Len() != i {
			t.Failf("the other list has %d nodes and Len() = %d, want %d", i, other.Len(), len(onodes))
		}
	}
	var stale []*bidlist.Node[X]
	strange := func() *bidlist.Node[X] {
		if len(stale) > 0 && (len(onodes) == 0 || t.Chance(2)) {
			return stale[t.Intn(len(stale))]
		}
		if len(onodes) > 0 {
			return onodes[t.Intn(len(onodes))]
		}
		return nil
	}
	ops, budget := 0, 5*target+100
	if !t.small && t.Chance(30) { // more than 16 bits
		target = 66000 + t.Intn(2000)
		budget = 3000
		for i, n := 0, target-t.Intn(1500); i < n; i++ {
			x := k.mk(bigVal(t, &next))
			l.PushBack(x)
			put(i, l.BackNode(), x)
		}
		check()
	}
	for ops < budget {
		cnt := 1 + t.Intn(max(1, min(target/2, budget)))
		grow := t.Intn(5) < 3
		t.Op("phase", cnt, grow)
		for i := 0; i < cnt; i++ {
			n := len(nodes)
			ops++
			if s := strange(); s != nil && t.Chance(12) {
				v := s.Value
				var own *bidlist.Node[X]
				if n > 0 {
					own = nodes[t.Intn(n)]
				}
				x := k.mk(bigVal(t, &next))
				switch t.Intn(7) {
				case 0:
					if g := l.Remove(s); !k.eq(g, v) {
						t.Failf("Remove of a node of no or another list = %v, want %v", g, v)
					}
				case 1:
					l.MoveToFront(s)
				case 2:
					l.MoveToBack(s)
				case 3:
					l.InsertAfter(x, s)
				case 4:
					l.InsertBefore(x, s)
				case 5:
					if own != nil {
						l.MoveAfter(own, s)
					}
				case 6:
					if own != nil {
						l.MoveAfter(s, own)
					}
				}
				if l.Len() != n || n > 0 && (l.FrontNode() != nodes[0] || l.BackNode() != nodes[n-1]) || !k.eq(s.Value, v) {
					t.Failf("a node of no or another list changed a list of %d, or was changed itself", n)
				}
				t.Count("operations with a node of no or another list")
				continue
			}
			if n == 0 || grow && n < target && t.Intn(4) > 0 {
				x := k.mk(bigVal(t, &next))
				switch w := t.Intn(6); {
				case w < 2 || n == 0:
					l.PushBack(x)
					put(n, l.BackNode(), x)
				case w < 4:
					l.PushFront(x)
					put(0, l.FrontNode(), x)
				case w == 4:
					p := t.Intn(n)
					put(p+1, l.InsertAfter(x, nodes[p]), x)
				default:
					p := t.Intn(n)
					put(p, l.InsertBefore(x, nodes[p]), x)
				}
				continue
			}
			p := t.Intn(n)
			switch t.Intn(7) {
			case 0:
				nd, x := take(0)
				stale = append(stale, nd)
				if g := l.PopFront(); !k.eq(g, x) || nd.Next() != nil || nd.Prev() != nil {
					t.Failf("PopFront() = %v, want %v, or its node still has neighbours", g, x)
				}
			case 1:
				nd, x := take(n - 1)
				stale = append(stale, nd)
				if g := l.PopBack(); !k.eq(g, x) || nd.Next() != nil || nd.Prev() != nil {
					t.Failf("PopBack() = %v, want %v, or its node still has neighbours", g, x)
				}
			case 2:
				nd, x := take(p)
				stale = append(stale, nd)
				if g := l.Remove(nd); !k.eq(g, x) || !k.eq(nd.Value, x) || nd.Next() != nil || nd.Prev() != nil {
					t.Failf("Remove() = %v, want %v, or its node still has neighbours", g, x)
				}
			case 3:
				nd, x := take(p)
				l.MoveToFront(nd)
				put(0, nd, x)
			case 4:
				nd, x := take(p)
				l.MoveToBack(nd)
				put(n-1, nd, x)
			case 5:
				nd, x := take(p)
				if n > 1 {
					q := t.Intn(n - 1)
					l.MoveAfter(nd, nodes[q])
					p = q + 1
				}
				put(p, nd, x)
			case 6:
				if t.Chance(1 + target/2) {
					l.Clear()
					for _, nd := range nodes {
						if nd.Next() != nil || nd.Prev() != nil {
							t.Failf("after Clear of %d nodes one still has neighbours", n)
						}
					}
					stale = append(stale, nodes...)
					nodes, vals = nil, nil
				} else {
					vals[p] = k.mk(bigVal(t, &next))
					nodes[p].Value = vals[p]
				}
			}
		}
		if n := len(nodes); n > 0 {
			if !k.eq(l.Front(), vals[0]) || !k.eq(l.Back(), vals[n-1]) {
				t.Failf("Front() = %v, Back() = %v, want %v, %v", l.Front(), l.Back(), vals[0], vals[n-1])
			}
			if n > 100 {
				t.Nontrivial()
			}
		}
		check()
		checkOther()
		for _, s := range stale {
			if s.Next() != nil || s.Prev() != nil {
				t.Failf("a node that left the list of %d has neighbours again", len(nodes))
			}
		}
	}
	o := bidlist.New[X]()
	var ov []X
	on := t.Intn(300)
	if t.Chance(3) {
		on = landmark(t, 5000)
	}
	for n := landmark(t, max(1, len(vals))); t.Chance(2) && len(vals) > n; vals = vals[1:] {
		l.Remove(l.FrontNode())
	}
	for i := on; i > 0; i-- {
		x := k.mk(bigVal(t, &next))
		o.PushBack(x)
		ov = append(ov, x)
	}
	back := t.Chance(2)
	t.Op("add a list", len(ov), back)
	want := append(append([]X(nil), ov...), vals...)
	if back {
		want = append(append([]X(nil), vals...), ov...)
		l.PushBackList(o)
	} else {
		l.PushFrontList(o)
	}
	i := 0
	l.Traversal(func(x X) bool {
		if i >= len(want) || !k.eq(x, want[i]) {
			t.Failf("after adding a list: wrong value in place %d of %d", i, len(want))
		}
		i++
		return true
	})
	if i != len(want) || l.Len() != i {
		t.Failf("after adding a list of %d to one of %d: %d values, Len() = %d", len(ov), len(vals), i, l.Len())
	}
	if i > 0 && (!k.eq(l.Front(), want[0]) || !k.eq(l.Back(), want[i-1])) {
		t.Failf("after adding a list of %d to one of %d: Front() = %v, Back() = %v, want %v, %v", len(ov), len(vals), l.Front(), l.Back(), want[0], want[i-1])
	}
	for n := l.BackNode(); n != nil; n = n.Prev() {
		if i--; i < 0 || !k.eq(n.Value, want[i]) {
			t.Failf("after adding a list: wrong value in place %d of %d, from the back", i, len(want))
		}
	}
	if i != 0 {
		t.Failf("after adding a list of %d to one of %d: %d values missing from the back", len(ov), len(vals), i)
	}
	t.CountN("operations in long histories", ops)
	t.Count("lists of " + k.name)
}

func bigSimplelist[X any](t *T, k kind[X]) {
	l := simplelist.New[X]()
	var nodes []*simplelist.Node[X]
	var vals []X
	next := 0
	target := min(bigSize(t), 3000+t.Intn(3)*t.Intn(2000))
	put := func(i int, n *simplelist.Node[X], x X) {
		if !k.eq(n.Value, x) {
			t.Failf("a node was made with %v, want %v", n.Value, x)
		}
		nodes = insertAt(nodes, i, n)
		vals = insertAt(vals, i, x)
	}
	take := func(i int) (pre, n *simplelist.Node[X], x X) {
		if i > 0 {
			pre = nodes[i-1]
		}
		n, x = nodes[i], vals[i]
		nodes = eraseRange(nodes, i, i+1)
		vals = eraseRange(vals, i, i+1)
		return
	}
	check := func() {
		n := len(nodes)
		if l.Len() != n {
			t.Failf("Len() = %d, want %d", l.Len(), n)
		}
		i := 0
		for x := l.FrontNode(); x != nil; x = x.Next() {
			if i >= n || x != nodes[i] || !k.eq(x.Value, vals[i]) {
				t.Failf("wrong node or value in place %d of %d", i, n)
			}
			i++
		}
		if i != n || n > 0 && l.BackNode() != nodes[n-1] {
			t.Failf("a walk gives %d nodes, want %d, or BackNode is another node", i, n)
		}
		t.Count("full comparisons")
		t.State(mix(uint64(n), hashStr(k.name)))
	}
	var stale []*simplelist.Node[X]
	other := simplelist.New[X]()
	for i := t.Intn(3) * t.Intn(200); i > 0; i-- {
		other.PushBack(k.mk(bigVal(t, &next)))
		stale = append(stale, other.BackNode())
	}
	others := len(stale)
	ops, budget := 0, 5*target+100
	if !t.small && t.Chance(30) { // more than 16 bits
		target = 66000 + t.Intn(2000)
		budget = 3000
		for i, n := 0, target-t.Intn(1500); i < n; i++ {
			x := k.mk(bigVal(t, &next))
			l.PushBack(x)
			put(i, l.BackNode(), x)
		}
		check()
	}
	for ops < budget {
		cnt := 1 + t.Intn(max(1, min(target/2, budget)))
		grow := t.Intn(5) < 3
		t.Op("phase", cnt, grow)
		for i := 0; i < cnt; i++ {
			n := len(nodes)
			ops++
			if len(stale) > 0 && t.Chance(12) { // documented: the list is not modified
				l.InsertAfter(k.mk(bigVal(t, &next)), stale[t.Intn(len(stale))])
				if l.Len() != n || n > 0 && l.BackNode() != nodes[n-1] {
					t.Failf("InsertAfter a node of no or another list changed a list of %d", n)
				}
				t.Count("operations with a node of no or another list")
				continue
			}
			if n == 0 || grow && n < target && t.Intn(4) > 0 {
				x := k.mk(bigVal(t, &next))
				switch w := t.Intn(6); {
				case w < 2 || n == 0:
					l.PushBack(x)
					put(n, l.BackNode(), x)
				case w < 4:
					l.PushFront(x)
					put(0, l.FrontNode(), x)
				default:
					p := t.Intn(n)
					put(p+1, l.InsertAfter(x, nodes[p]), x)
				}
				continue
			}
			p := t.Intn(n)
			if t.Chance(4) {
				p = n - 1
			}
			switch t.Intn(4) {
			case 0, 1:
				pre, nd, x := take(p)
				stale = append(stale, nd)
				if g := l.Remove(pre, nd); !k.eq(g, x) {
					t.Failf("Remove() = %v, want %v", g, x)
				}
			case 2:
				pre, nd, x := take(p)
				l.MoveToFront(pre, nd)
				put(0, nd, x)
			case 3:
				pre, nd, x := take(p)
				l.MoveToBack(pre, nd)
				put(n-1, nd, x)
			}
		}
		if len(nodes) > 100 {
			t.Nontrivial()
		}
		check()
		i := 0
		for x := other.FrontNode(); x != nil; x = x.Next() {
			if i >= others || x != stale[i] {
				t.Failf("another list was changed at place %d", i)
			}
			i++
		}
		if i != others || other.Len() != others {
			t.Failf("another list of %d now has %d nodes", others, i)
		}
	}
	t.CountN("operations in long histories", ops)
	t.Count("lists of " + k.name)
}

// ---- C13 ----

// refHeap is a plain binary heap on (priority, arrival).
type refHeap struct {
	s   []E
	cmp func(a, b E) int
}

func (h *refHeap) less(i, j int) bool {
	c := h.cmp(h.s[i], h.s[j])
	return c < 0 || c == 0 && h.s[i].ID < h.s[j].ID
}

func (h *refHeap) push(e E) {
	h.s = append(h.s, e)
	for i := len(h.s) - 1; i > 0 && h.less(i, (i-1)/2); i = (i - 1) / 2 {
		h.s[i], h.s[(i-1)/2] = h.s[(i-1)/2], h.s[i]
	}
}

func (h *refHeap) pop() E {
	e := h.s[0]
	n := len(h.s) - 1
	h.s[0] = h.s[n]
	h.s = h.s[:n]
	for i := 0; ; {
		c := 2*i + 1
		if c >= n {
			return e
		}
		if c+1 < n && h.less(c+1, c) {
			c++
		}
		if !h.less(c, i) {
			return e
		}
		h.s[i], h.s[c] = h.s[c], h.s[i]
		i = c
	}
}

func runBigPQ(t *T) {
	cname, cmp := pickCmp(t)
	var opts []priorityqueue.Option
	if t.Chance(2) {
		opts = append(opts, priorityqueue.WithGoroutineSafe())
	}
	q := priorityqueue.New[E](cmp, opts...)
	m := &refHeap{cmp: cmp}
	target := bigSize(t)
	keys := []int{1, 3, 50, target + 1, 1 << 40}[t.Intn(5)]
	id := 0
	ops, budget := 0, 4*target+100
	pop := func() {
		w := m.pop()
		if g := q.Pop(); g != w {
			t.Failf("priority queue (%s) of %d: Pop() = %v, want %v", cname, len(m.s)+1, g, w)
		}
	}
	for ops < budget {
		cnt := 1 + t.Intn(max(1, target))
		bias := t.Intn(7)
		t.Op("phase", cname, keys, cnt, bias)
		for i := 0; i < cnt; i++ {
			ops++
			if len(m.s) == 0 || len(m.s) < target && t.Intn(6) < bias {
				id++
				e := E{t.R.IntN(keys) - keys/2, id}
				q.Push(e)
				m.push(e)
			} else {
				pop()
			}
		}
		if q.Size() != len(m.s) || q.Empty() != (len(m.s) == 0) {
			t.Failf("Size() = %d, Empty() = %v, want %d elements", q.Size(), q.Empty(), len(m.s))
		}
		if len(m.s) > 0 {
			if g := q.Top(); g != m.s[0] {
				t.Failf("Top() = %v, want %v", g, m.s[0])
			}
			t.State(mix(uint64(len(m.s)), uint64(keys)))
		}
		if len(m.s) > 2 {
			t.Nontrivial()
		}
		if t.Chance(20) {
			t.Op("Clear")
			q.Clear()
			m.s = nil
		}
	}
	t.Op("drain", len(m.s))
	for len(m.s) > 0 {
		pop()
	}
	t.mustPanic("Pop on an empty priority queue", func() { q.Pop() })
	t.CountN("operations in long histories", ops)
}

// sortedKeys is the model's listing at a checkpoint.
func sortEntries(es []entry, cmp func(a, b E) int) {
	sort.Slice(es, func(i, j int) bool {
		c := cmp(es[i].k, es[j].k)
		return c < 0 || c == 0 && es[i].s < es[j].s
	})
}

func or(b bool, x, y int) int {
	if b {
		return x
	}
	return y
}
