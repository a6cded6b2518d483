package main

import (
	"bytes"
	"fmt"
	"math"
	"sort"

	"github.com/liyue201/gostl/algorithm/hash"
	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/bitmap"
	bloom "github.com/liyue201/gostl/ds/bloomfilter"
	"github.com/liyue201/gostl/ds/container"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/ketama"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/pair"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/rbtree"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/ds/stack"
	"github.com/liyue201/gostl/ds/vector"
)

// ---- C33 containers do not share ----

// box is the smallest face of a container with contents.
type box struct {
	name string
	put  func(x int)
	take func() (int, bool) // removes some element and says which
	all  func() []int       // the contents as a multiset
}

const boxKinds = 17

// boxMaker gives a constructor whose products were made with the very same
// option values.
func boxMaker(t *T, kind int, wrap func(cmp func(a, b int) int) func(a, b int) int) func() *box {
	cmp := func() func(a, b int) int { return wrap(refOrd[int]) }
	safe := t.Chance(2)
	switch kind {
	case 0:
		opts := []vector.Option{vector.WithCapacity(t.Intn(40))}
		return func() *box {
			v := vector.New[int](opts...)
			return &box{"vector", v.PushBack, func() (int, bool) {
				if v.Empty() {
					return 0, false
				}
				return v.PopBack(), true
			}, func() (out []int) {
				for i := 0; i < v.Size(); i++ {
					out = append(out, v.At(i))
				}
				return
			}}
		}
	case 1, 2:
		return func() *box {
			d := deque.New[int]()
			b := &box{"deque", d.PushBack, func() (int, bool) {
				if d.Empty() {
					return 0, false
				}
				return d.PopFront(), true
			}, func() (out []int) {
				for i := 0; i < d.Size(); i++ {
					out = append(out, d.At(i))
				}
				return
			}}
			if kind == 2 {
				b.put = d.PushFront
			}
			return b
		}
	case 3:
		return func() *box {
			l := bidlist.New[int]()
			return &box{"bidlist", l.PushBack, func() (int, bool) {
				if l.Empty() {
					return 0, false
				}
				return l.PopFront(), true
			}, func() (out []int) {
				l.Traversal(func(x int) bool { out = append(out, x); return true })
				return
			}}
		}
	case 4:
		return func() *box {
			l := simplelist.New[int]()
			return &box{"simplelist", l.PushFront, func() (int, bool) {
				if l.Len() == 0 {
					return 0, false
				}
				return l.Remove(nil, l.FrontNode()), true
			}, func() (out []int) {
				l.Traversal(func(x int) bool { out = append(out, x); return true })
				return
			}}
		}
	case 5, 6:
		var opts []queue.Option[int]
		if safe {
			opts = append(opts, queue.WithGoroutineSafe[int]())
		}
		if kind == 6 {
			opts = append(opts, queue.WithListContainer[int]())
		}
		return func() *box {
			q := queue.New[int](opts...)
			return &box{"queue", q.Push, func() (int, bool) {
				if q.Empty() {
					return 0, false
				}
				return q.Pop(), true
			}, func() (out []int) {
				for i := q.Size(); i > 0; i-- {
					x := q.Pop()
					out = append(out, x)
					q.Push(x)
				}
				return
			}}
		}
	case 7, 8:
		var opts []stack.Option[int]
		if safe {
			opts = append(opts, stack.WithGoroutineSafe[int]())
		}
		if kind == 8 {
			opts = append(opts, stack.WithListContainer[int]())
		}
		return func() *box {
			q := stack.New[int](opts...)
			return &box{"stack", q.Push, func() (int, bool) {
				if q.Empty() {
					return 0, false
				}
				return q.Pop(), true
			}, func() (out []int) {
				for !q.Empty() {
					out = append(out, q.Pop())
				}
				for i := len(out) - 1; i >= 0; i-- {
					q.Push(out[i])
				}
				return
			}}
		}
	case 9:
		var opts []priorityqueue.Option
		if safe {
			opts = append(opts, priorityqueue.WithGoroutineSafe())
		}
		return func() *box {
			q := priorityqueue.New[int](cmp(), opts...)
			return &box{"priority queue", q.Push, func() (int, bool) {
				if q.Empty() {
					return 0, false
				}
				return q.Pop(), true
			}, func() (out []int) {
				for !q.Empty() {
					out = append(out, q.Pop())
				}
				for _, x := range out {
					q.Push(x)
				}
				return
			}}
		}
	case 10:
		return func() *box {
			tr := rbtree.New[int, int](cmp())
			return &box{"rbtree", func(x int) { tr.Insert(x, x) }, func() (int, bool) {
				n := tr.Last()
				if n == nil {
					return 0, false
				}
				x := n.Value()
				tr.Delete(n)
				return x, true
			}, func() (out []int) {
				tr.Traversal(func(k, v int) bool { out = append(out, v); return true })
				return
			}}
		}
	case 11, 12:
		var opts []treemap.Option
		if safe {
			opts = append(opts, treemap.WithGoroutineSafe())
		}
		return func() *box {
			if kind == 11 {
				m := treemap.New[int, int](cmp(), opts...)
				return &box{"map", func(x int) { m.Insert(x, x) }, func() (int, bool) {
					i := m.First()
					if !i.IsValid() {
						return 0, false
					}
					x := i.Value()
					m.Erase(i.Key())
					return x, true
				}, func() (out []int) {
					m.Traversal(func(k, v int) bool { out = append(out, v); return true })
					return
				}}
			}
			m := treemap.NewMultiMap[int, int](cmp(), opts...)
			return &box{"multimap", func(x int) { m.Insert(x, x) }, func() (int, bool) {
				i := m.Last()
				if !i.IsValid() {
					return 0, false
				}
				x := i.Value()
				m.Erase(i.Key())
				return x, true
			}, func() (out []int) {
				m.Traversal(func(k, v int) bool { out = append(out, v); return true })
				return
			}}
		}
	case 13, 14:
		var opts []set.Option
		if safe {
			opts = append(opts, set.WithGoroutineSafe())
		}
		return func() *box {
			if kind == 13 {
				s := set.New[int](cmp(), opts...)
				return &box{"set", s.Insert, func() (int, bool) {
					i := s.First()
					if !i.IsValid() {
						return 0, false
					}
					x := i.Value()
					s.Erase(x)
					return x, true
				}, func() (out []int) {
					s.Traversal(func(x int) bool { out = append(out, x); return true })
					return
				}}
			}
			s := set.NewMultiSet[int](cmp(), opts...)
			return &box{"multiset", s.Insert, func() (int, bool) {
				i := s.Last()
				if !i.IsValid() {
					return 0, false
				}
				x := i.Value()
				s.Erase(x)
				return x, true
			}, func() (out []int) {
				s.Traversal(func(x int) bool { out = append(out, x); return true })
				return
			}}
		}
	case 15:
		var opts []skiplist.Option
		if safe {
			opts = append(opts, skiplist.WithGoroutineSafe())
		}
		if t.Chance(2) {
			opts = append(opts, skiplist.WithMaxLevel(1+t.Intn(8)))
		}
		return func() *box {
			s := skiplist.New[int, int](cmp(), opts...)
			return &box{"skiplist", func(x int) { s.Insert(x, x) }, func() (int, bool) {
				ks := s.Keys()
				if len(ks) == 0 {
					return 0, false
				}
				x, _ := s.Get(ks[0])
				s.Remove(ks[0])
				return x, true
			}, func() (out []int) {
				s.Traversal(func(k, v int) bool { out = append(out, v); return true })
				return
			}}
		}
	case 16:
		var opts []hamt.Option
		if safe {
			opts = append(opts, hamt.WithGoroutineSafe())
		}
		return func() *box {
			h := hamt.New[int](opts...)
			seen := cmp()
			key := func(x int) hamt.Key { return hamt.Key(fmt.Sprint("key ", x)) }
			return &box{"hamt", func(x int) { h.Insert(key(x), x) }, func() (int, bool) {
				ks := h.Keys()
				if len(ks) == 0 {
					return 0, false
				}
				x, _ := h.Get(ks[len(ks)-1])
				h.Erase(ks[len(ks)-1])
				return x, true
			}, func() (out []int) {
				h.Traversal(func(k hamt.Key, v int) bool { seen(v, v); out = append(out, v); return true })
				return
			}}
		}
	}
	panic("kind")
}

func sortedInts(xs []int) []int {
	xs = append([]int(nil), xs...)
	sort.Ints(xs)
	return xs
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// runInstances interleaves operations on several containers made from the same
// options. Every value is put only once, into one container.
func runInstances(t *T) {
	kind := t.Case % boxKinds
	mk := boxMaker(t, kind, func(c func(a, b int) int) func(a, b int) int { return c })
	var bs []*box
	var ms []map[int]bool
	add := func() {
		bs = append(bs, mk())
		ms = append(ms, map[int]bool{})
	}
	add()
	add()
	t.Op("containers", bs[0].name)
	t.Count("instances of " + bs[0].name)
	next := 0
	check := func(what string) {
		for i, b := range bs {
			var want []int
			for x := range ms[i] {
				want = append(want, x)
			}
			sort.Ints(want)
			if g := sortedInts(b.all()); !sameInts(g, want) {
				t.Failf("%s %d of %d holds %v, want %v, after %s", b.name, i, len(bs), g, want, what)
			}
		}
	}
	both := false
	for i, n := 0, 20+t.Intn(60); i < n; i++ {
		j := t.Intn(len(bs))
		k := 1
		if t.Chance(6) {
			k = t.Intn(200)
		}
		switch t.Intn(5) {
		case 0, 1, 2:
			t.Op("put", j, k)
			for ; k > 0; k-- {
				next++
				bs[j].put(next)
				ms[j][next] = true
			}
		case 3:
			t.Op("take", j, k)
			for ; k > 0; k-- {
				x, ok := bs[j].take()
				if ok != (len(ms[j]) > 0) {
					t.Failf("%s %d: an element could be taken: %v, with %d there", bs[j].name, j, ok, len(ms[j]))
				}
				if !ok {
					break
				}
				if !ms[j][x] {
					t.Failf("%s %d gave %d, which is not in it", bs[j].name, j, x)
				}
				delete(ms[j], x)
			}
		case 4:
			if len(bs) < 5 && t.Chance(3) {
				t.Op("another")
				add()
				t.Count("containers made while others are in use")
			} else {
				check("the operations so far")
			}
		}
		if len(ms[0]) > 0 && len(ms[1]) > 0 {
			both = true
		}
	}
	check("all operations")
	t.CountN("elements put into one of several containers", next)
	if both {
		t.Nontrivial()
	}
}

// runReenter works on one container while another made from the same options is
// inside an operation: their locks must be different ones.
func runReenter(t *T) {
	inside := 0
	depth := 0
	var inner func()
	hook := func() {
		if inner != nil && depth == 0 {
			depth++
			inside++
			inner()
			depth--
		}
	}
	var b1, b2 *box
	kind := t.Case % 10
	if kind >= 8 { // queue and stack over containers of the harness
		c1, c2 := &boxCont{hook: func(string) { hook() }}, &boxCont{}
		var cs []container.Container[int]
		cs = append(cs, c1, c2)
		mk := func(i int) *box { return nil }
		if kind == 8 {
			gs := queue.WithGoroutineSafe[int]()
			mk = func(i int) *box {
				q := queue.New[int](gs, queue.WithContainer[int](cs[i]))
				return &box{name: "queue", put: q.Push, all: func() []int { q.Size(); q.Front(); return nil }}
			}
		} else {
			gs := stack.WithGoroutineSafe[int]()
			mk = func(i int) *box {
				q := stack.New[int](gs, stack.WithContainer[int](cs[i]))
				return &box{name: "stack", put: q.Push, all: func() []int { q.Size(); q.Top(); return nil }}
			}
		}
		b1, b2 = mk(0), mk(1)
	} else {
		mk := boxMaker(t, []int{9, 10, 11, 12, 13, 14, 15, 16}[kind], func(c func(a, b int) int) func(a, b int) int {
			return func(a, b int) int { hook(); return c(a, b) }
		})
		b1, b2 = mk(), mk()
	}
	t.Op("containers", b1.name)
	for i := 0; i < 20; i++ {
		b1.put(2 * i)
		b2.put(2*i + 1)
	}
	x := 1000
	inner = func() {
		x++
		b2.put(x)
		b2.all()
		t.Tick()
	}
	for i := 0; i < 5; i++ {
		b1.put(100 + i)
		b1.all()
		if b1.take != nil {
			b1.take()
		}
	}
	t.CountN("operations inside one of another container", inside)
	t.Nontrivial()
}

// runCopies makes a copy, changes one of the two and looks at the other.
func runCopies(t *T) {
	n, top := t.Intn(20), 50
	if t.Chance(12) {
		n, top = t.Intn([]int{100, 600, 3000}[t.Intn(3)]), 5000
		t.Count("large copies")
	}
	xs := make([]int, n)
	for i := range xs {
		xs[i] = t.Intn(top)
	}
	kind := t.Case % 12
	t.Op("copy", kind, fmt.Sprint(xs))
	same := func(what string, g, w []int) {
		if !sameInts(g, w) {
			t.Failf("%s: %v, want %v", what, g, w)
		}
		t.Count("copies compared")
	}
	read := func(n int, at func(int) int) []int {
		out := make([]int, n)
		for i := range out {
			out[i] = at(i)
		}
		return out
	}
	if n > 0 {
		t.Nontrivial()
	}
	flip := t.Chance(2) // change the copy, or the original
	switch kind {
	case 0:
		a := array.New[int](n)
		for i, x := range xs {
			a.Set(i, x)
		}
		b := array.NewFromArray(a)
		same("NewFromArray", read(b.Size(), b.At), xs)
		if flip {
			a, b = b, a
		}
		for i := range xs {
			switch t.Intn(3) {
			case 0:
				b.Set(i, -1-i)
			case 1:
				b.IterAt(i).SetValue(-100)
			}
		}
		if t.Chance(3) {
			b.Fill(-7)
		}
		same("an array after changes to its copy", read(a.Size(), a.At), xs)
	case 1:
		a := vector.New[int](vector.WithCapacity(t.Intn(2*n + 1)))
		for _, x := range xs {
			a.PushBack(x)
		}
		b := vector.NewFromVector(a)
		same("NewFromVector", read(b.Size(), b.At), xs)
		if flip {
			a, b = b, a
		}
		want := append([]int(nil), xs...)
		for i := 0; i < 12; i++ {
			switch t.Intn(7) {
			case 0:
				b.PushBack(-i)
			case 1:
				a.PushBack(i)
				want = append(want, i)
			case 2:
				b.InsertAt(t.Intn(b.Size()+1), -i)
			case 3:
				if b.Size() > 0 {
					b.EraseAt(t.Intn(b.Size()))
				}
			case 4:
				if b.Size() > 0 {
					b.SetAt(t.Intn(b.Size()), -50)
				}
			case 5:
				if b.Size() > 0 {
					b.PopBack()
				}
			case 6:
				if t.Chance(4) {
					b.Clear()
				}
			}
			same("a vector after changes to its copy", read(a.Size(), a.At), want)
		}
	case 2, 3:
		m, k := uint64(1+t.Intn(400+20*n)), uint64(1+t.Intn(12))
		a := bloom.New(m, k)
		for _, x := range xs {
			a.Add(fmt.Sprint(x))
		}
		data := a.Data()
		kept := append([]byte(nil), data...)
		b := bloom.NewFromData(data)
		if kind == 2 { // the exported bytes are the caller's
			for i := 0; i < 30; i++ {
				a.Add(fmt.Sprint("another", i))
			}
			if !bytes.Equal(data, kept) {
				t.Failf("exported filter bytes changed when the filter did")
			}
			if !bytes.Equal(b.Data(), kept) {
				t.Failf("a filter changed when the one it was made from did")
			}
			for i := range data {
				data[i] ^= 0xff
			}
			if !bytes.Equal(b.Data(), kept) {
				t.Failf("a filter changed with the bytes it was made from")
			}
			d := b.Data()
			for i := range d {
				d[i] = 0
			}
			if !bytes.Equal(b.Data(), kept) {
				t.Failf("a filter changed with the bytes it had exported")
			}
		} else {
			for i := 0; i < 30; i++ {
				b.Add(fmt.Sprint("another", i))
			}
			if !bytes.Equal(a.Data(), kept) || !bytes.Equal(data, kept) {
				t.Failf("a filter or its export changed when a filter made from it did")
			}
			for _, x := range xs {
				if !b.Contains(fmt.Sprint(x)) {
					t.Failf("a filter made from data lost %d", x)
				}
			}
		}
		t.Count("filters copied")
	case 4, 5:
		a, b := bidlist.New[int](), bidlist.New[int]()
		for _, x := range xs {
			b.PushBack(x)
		}
		own := make([]int, t.Intn(4+n/8))
		for i := range own {
			own[i] = -1 - i
			a.PushBack(own[i])
		}
		self := t.Chance(5)
		src, srcWant := b, xs
		if self {
			src, srcWant = a, own
		}
		var want []int
		if kind == 4 {
			a.PushBackList(src)
			want = append(append(want, own...), srcWant...)
		} else {
			a.PushFrontList(src)
			want = append(append(want, srcWant...), own...)
		}
		list := func(l *bidlist.List[int]) (out []int) {
			l.Traversal(func(x int) bool { out = append(out, x); return true })
			return
		}
		same("a list after another was added to it", list(a), want)
		same("a list after it was added to another", list(b), xs)
		if b.Len() != n || a.Len() != len(want) {
			t.Failf("lengths %d and %d, want %d and %d", a.Len(), b.Len(), len(want), n)
		}
		if self {
			break
		}
		if flip {
			for nd := b.FrontNode(); nd != nil; nd = nd.Next() {
				nd.Value = -5
			}
			b.PushBack(1)
			b.PushFront(1)
			b.PopBack()
			if t.Chance(2) {
				b.Clear()
			}
			same("a list after the one added to it changed", list(a), want)
		} else {
			for nd := a.FrontNode(); nd != nil; nd = nd.Next() {
				nd.Value = -5
			}
			for a.Len() > 0 {
				a.PopBack()
			}
			a.PushBack(3)
			same("a list after the one it was added to changed", list(b), xs)
		}
	case 6, 7, 8:
		mk := func(vals []int) *set.Set[int] {
			var o []set.Option
			if t.Chance(2) {
				o = append(o, set.WithGoroutineSafe())
			}
			s := set.New[int](refOrd[int], o...)
			for _, x := range vals {
				s.Insert(x)
			}
			return s
		}
		list := func(s *set.Set[int]) (out []int) {
			s.Traversal(func(x int) bool { out = append(out, x); return true })
			return
		}
		ys := make([]int, t.Intn(n+20))
		for i := range ys {
			ys[i] = t.Intn(top)
		}
		if t.Chance(4) {
			ys = nil // results that equal one operand
		}
		a, b := mk(xs), mk(ys)
		if t.Chance(6) {
			b = a
		}
		wa, wb := list(a), list(b)
		var r *set.Set[int]
		switch kind {
		case 6:
			r = a.Union(b)
		case 7:
			r = a.Intersect(b)
		case 8:
			r = a.Diff(b)
		}
		if r == a || r == b {
			t.Failf("set algebra returned one of its operands")
		}
		same("a set after set algebra", list(a), wa)
		same("the other set after set algebra", list(b), wb)
		wr := list(r)
		switch t.Intn(3) {
		case 0:
			r.Insert(1000000)
			r.Erase(t.Intn(top))
			for _, x := range wr {
				if t.Chance(2) {
					r.Erase(x)
				}
			}
			if t.Chance(3) {
				r.Clear()
			}
			same("a set after the result of set algebra changed", list(a), wa)
			same("the other set after the result of set algebra changed", list(b), wb)
		case 1:
			a.Insert(1000000)
			for _, x := range wa {
				if t.Chance(2) {
					a.Erase(x)
				}
			}
			same("a result of set algebra after the set changed", list(r), wr)
		case 2:
			b.Insert(1000000)
			b.Clear()
			same("a result of set algebra after the other set changed", list(r), wr)
		}
	case 9:
		s := skiplist.New[int, int](refOrd[int])
		for _, x := range xs {
			s.Insert(x, x)
		}
		ks := s.Keys()
		want := append([]int(nil), ks...)
		s.Insert(1000000, 0)
		s.Remove(1000000)
		for _, x := range xs[:n/2] {
			s.Remove(x)
			s.Insert(x, 1)
		}
		same("listed keys after the skiplist changed", ks, want)
		for i := range ks {
			ks[i] = -1
		}
		_ = append(ks, 5)
		same("the keys of a skiplist after its listing was overwritten", s.Keys(), want)
	case 10:
		h := hamt.New[int]()
		for _, x := range xs {
			h.Insert(hamt.Key(fmt.Sprint(x)), x)
		}
		ks, sk := h.Keys(), h.StringKeys()
		wk := append([]string(nil), sk...)
		for i := range ks {
			ks[i] = nil
			sk[i] = "?"
		}
		for i, x := range h.StringKeys() {
			if i >= len(wk) || x != wk[i] {
				t.Failf("hamt: the keys changed when a listing of them was overwritten")
			}
		}
		h2 := h.Keys()
		h.Insert(hamt.Key("another"), 1)
		for i, x := range h2 {
			if string(x) != wk[i] {
				t.Failf("hamt: a listing of the keys changed when the hamt did")
			}
		}
		t.Count("copies compared")
	case 11:
		s1, s2 := []byte(fmt.Sprint(xs)), []byte("x")
		k := 1 + t.Intn(30)
		a := hash.GenHashInts(s1, k)
		wa := append([]uint64(nil), a...)
		d := hash.Hash512(s1)
		wd := append([]byte(nil), d...)
		b := hash.GenHashInts(s2, k)
		wb := append([]uint64(nil), b...)
		hash.Hash512(s2)
		for i := range b {
			b[i] = 0
		}
		for i, x := range hash.GenHashInts(s2, k) {
			if x != wb[i] {
				t.Failf("hash values changed when earlier ones of their seed were overwritten")
			}
		}
		for i := range a {
			if a[i] != wa[i] {
				t.Failf("hash values changed when others were generated")
			}
		}
		if !bytes.Equal(d, wd) {
			t.Failf("a digest changed when another was made")
		}
		for i, x := range hash.GenHashInts(s1, k) {
			if x != wa[i] {
				t.Failf("hash values of one seed differ: %x and %x", x, wa[i])
			}
			a[i] = 1
		}
		d[t.Intn(len(d))] ^= 1
		for i, x := range hash.GenHashInts(s1, 1+t.Intn(k)) {
			if x != wa[i] {
				t.Failf("hash values changed when earlier ones of their seed were overwritten")
			}
		}
		if !bytes.Equal(hash.Hash512(s1), wd) {
			t.Failf("a digest changed when an earlier one was overwritten")
		}
		bm1, bm2 := bitmap.New(100), bitmap.New(100)
		bm1.Set(uint64(t.Intn(100)))
		for i := uint64(0); i < 100; i++ {
			if bm2.IsSet(i) {
				t.Failf("a bit set in one bitmap is set in another")
			}
		}
		r1, r2 := ketama.New(), ketama.New()
		r1.Add("n1")
		if !r2.Empty() {
			t.Failf("a node added to one ring is in another")
		}
		r2.Add("n2", "n3")
		r1.Remove("n2")
		if g, ok := r1.Get("key"); !ok || g != "n1" {
			t.Failf("a ring of n1 maps a key to %q, %v", g, ok)
		}
		if g, ok := r2.Get("key"); !ok || (g != "n2" && g != "n3") {
			t.Failf("a ring of n2 and n3 maps a key to %q, %v", g, ok)
		}
		t.Count("copies compared")
	}
}

// ---- C34 pairs ----

type pairPt struct{ X, Y int }

func runPair(t *T) {
	p1, p2 := new(int), new(int)
	pool := []any{nil, 0, 1, int64(0), int64(1), uint8(1), "", "0", "1", 0.0, math.Copysign(0, -1), 1.0, math.NaN(), math.Inf(1),
		false, true, p1, p2, pairPt{1, 2}, pairPt{2, 1}, [2]int{1, 2}, struct{}{}, error(nil), (*int)(nil), (*string)(nil), 'a', complex(1, 0)}
	pick := func() any {
		if t.Chance(4) {
			return t.Intn(3)
		}
		return pool[t.Intn(len(pool))]
	}
	// the harness's own notion of equal values
	eq := func(a, b any) bool { return a == b }
	show := func(p *pair.Pair) string { return fmt.Sprintf("(%T %v, %T %v)", p.Front, p.Front, p.Back, p.Back) }
	var ps []*pair.Pair
	type fb struct{ f, b any }
	var ms []fb
	sameVal := func(a, b any) bool { return a == b || (a != a && b != b) }
	for i, n := 0, 4+t.Intn(20); i < n; i++ {
		f, b := pick(), pick()
		switch {
		case len(ps) == 0 || t.Chance(2):
			t.Op("MakePair", fmt.Sprintf("%T %v %T %v", f, f, b, b))
			ps = append(ps, pair.MakePair(f, b))
			ms = append(ms, fb{f, b})
		case t.Chance(2):
			j := t.Intn(len(ps))
			t.Op("New", j, fmt.Sprintf("%T %v %T %v", f, f, b, b))
			ps[j].New(f, b)
			ms[j] = fb{f, b}
			t.Count("pairs set again")
		default:
			j := t.Intn(len(ps))
			c := *ps[j]
			c.Front, c.Back = f, b // a copy is a pair of its own
		}
		for j, p := range ps {
			if !sameVal(p.Fronts(), ms[j].f) || !sameVal(p.Backs(), ms[j].b) || !sameVal(p.Front, ms[j].f) || !sameVal(p.Back, ms[j].b) {
				t.Failf("pair %d is %s with Fronts() %v and Backs() %v, want (%T %v, %T %v)", j, show(p), p.Fronts(), p.Backs(), ms[j].f, ms[j].f, ms[j].b, ms[j].b)
			}
			for k, q := range ps {
				want := eq(ms[j].f, ms[k].f) && eq(ms[j].b, ms[k].b)
				if g := p.Equal(*q); g != want {
					t.Failf("%s.Equal(%s) = %v", show(p), show(q), g)
				}
				if want {
					t.Count("equal pairs")
				} else {
					t.Count("unequal pairs")
				}
			}
		}
	}
	if len(ps) > 1 {
		t.Nontrivial()
	}
}

func init() {
	register(&Prop{ID: "C33",
		Rule: "instances: two to five containers of one of 17 kinds made from the same option values, operations interleaved, every value put once into one of them, contents of all compared with their models; reentry: operations on one container from the comparator, visitor or underlying container of another made from the same options, which must not block; copies: array, vector, filter, list, set algebra results, key listings and hash values, one side changed and the other compared; non-trivial when both sides hold something",
		Suites: []Suite{
			{Name: "instances", Quick: 17000, Thorough: 400000, Run: runInstances},
			{Name: "reentry", Quick: 8000, Thorough: 40000, Run: runReenter},
			{Name: "copies", Quick: 180000, Thorough: 1200000, Run: runCopies},
		}, Require: []string{"copies compared", "filters copied", "operations inside one of another container", "elements put into one of several containers", "containers made while others are in use", "instances of hamt"}})
	register(&Prop{ID: "C34",
		Rule: "up to 24 pairs of values of 20 types (NaN, signed zeros, nil of several types, pointers, structs), made and set again; after each step every pair's components and every two pairs' equality are compared with Go's own; non-trivial with two or more pairs",
		Suites: []Suite{
			{Name: "pairs", Quick: 400000, Thorough: 400000, Run: runPair},
		}, Require: []string{"equal pairs", "unequal pairs", "pairs set again"},
		Assume: []string{"components are of comparable types"}})
}
