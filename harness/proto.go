package main

import (
	"fmt"
	"slices"

	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/rbtree"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/ds/stack"
	"github.com/liyue201/gostl/ds/vector"
	"github.com/liyue201/gostl/utils/iterator"
)

// ---- C29 the iterator protocol ----

type cit = iterator.ConstIterator[E]

// itCont is a container of E's with the iterators it hands out.
type itCont struct {
	name    string
	random  bool // positions, one past the end and one before the beginning
	bid     bool // can go back
	keyed   bool // Key() is the element's K
	settab  bool // SetValue is allowed on a valid iterator
	setBad  bool // SetValue on an invalid iterator is a no-op
	eqOther bool // Equal tells containers of the same kind apart
	first   func() cit
	last    func() cit
	begin   func() cit
	end     func() cit
	at      func(p int) cit
	set     func(p int, e E) // overwrite an element behind the iterators' back
	ins     func(p int, e E) // insert before position p
	del     func(p int)      // erase position p
}

const itKinds = 11

func makeIt(t *T, kind int, es []E) *itCont { return itOf(t, kind, es, plain[E]()) }

// itMaker gives a maker of containers that all have the same element type.
func itMaker(t *T, n int) func(t *T, kind int, es []E) *itCont {
	if !t.Chance(3) {
		return makeIt
	}
	switch t.Intn(nTypes) {
	case 0:
		return itAs(t, kString)
	case 1:
		return itAs(t, kNamed)
	case 2:
		return itAs(t, kFloat)
	case 3:
		return itAs(t, kInt)
	case 4:
		return itAs(t, kInt64)
	case 5:
		return itAs(t, kUint)
	case 6:
		return itAs(t, kPtr)
	case 7:
		return itAs(t, kStruct)
	case 8:
		return itAs(t, kArray)
	case 9:
		return itAs(t, kSlice)
	case 10:
		return itAs(t, kAny)
	}
	if n > 100 {
		return itAs(t, kString)
	}
	return itAs(t, kByte)
}

func itAs[X any](t *T, k kindOf[X]) func(t *T, kind int, es []E) *itCont {
	t.Op("type", k.name)
	t.Count("iterators over " + k.name)
	ks := newCodec[E](k)
	return func(t *T, kind int, es []E) *itCont { return itOf(t, kind, es, ks) }
}

func itOf[X any](t *T, kind int, es []E, ks *codec[E, X]) *itCont {
	n := len(es)
	enc := ks.enc
	as := func(i iterator.ConstIterator[X]) cit { return asConst(ks, i) }
	cmp := func(a, b X) int { return cmpK(ks.dec(a), ks.dec(b)) }
	switch kind {
	case 0:
		v := vector.New[X](vector.WithCapacity(t.Intn(n + 2)))
		for _, e := range es {
			v.PushBack(enc(e))
		}
		return &itCont{name: "vector", random: true, bid: true, settab: true, setBad: true, eqOther: true,
			first: func() cit { return as(v.First()) }, last: func() cit { return as(v.Last()) },
			begin: func() cit { return as(v.Begin()) }, end: func() cit { return as(v.End()) },
			at:  func(p int) cit { return as(v.IterAt(p)) },
			set: func(p int, e E) { v.SetAt(p, enc(e)) },
			ins: func(p int, e E) {
				if p == v.Size() {
					v.PushBack(enc(e))
				} else {
					v.InsertAt(p, enc(e))
				}
			},
			del: func(p int) {
				if p == v.Size()-1 {
					v.PopBack()
				} else {
					v.EraseAt(p)
				}
			}}
	case 1:
		d := deque.New[X]()
		split := t.Intn(n + 1)
		for i := split - 1; i >= 0; i-- {
			d.PushFront(enc(es[i]))
		}
		for _, e := range es[split:] {
			d.PushBack(enc(e))
		}
		return &itCont{name: "deque", random: true, bid: true, settab: true, setBad: true, eqOther: true,
			first: func() cit { return as(d.First()) }, last: func() cit { return as(d.Last()) },
			begin: func() cit { return as(d.Begin()) }, end: func() cit { return as(d.End()) },
			at:  func(p int) cit { return as(d.IterAt(p)) },
			set: func(p int, e E) { d.Set(p, enc(e)) },
			ins: func(p int, e E) {
				switch p {
				case 0:
					d.PushFront(enc(e))
				case d.Size():
					d.PushBack(enc(e))
				default:
					d.Insert(p, enc(e))
				}
			},
			del: func(p int) {
				switch p {
				case 0:
					d.PopFront()
				case d.Size() - 1:
					d.PopBack()
				default:
					d.EraseAt(p)
				}
			}}
	case 2:
		a := array.New[X](n)
		for i, e := range es {
			a.Set(i, enc(e))
		}
		return &itCont{name: "array", random: true, bid: true, settab: true, setBad: true, eqOther: true,
			first: func() cit { return as(a.First()) }, last: func() cit { return as(a.Last()) },
			begin: func() cit { return as(a.Begin()) }, end: func() cit { return as(a.End()) },
			at:  func(p int) cit { return as(a.IterAt(p)) },
			set: func(p int, e E) { a.Set(p, enc(e)) }}
	case 3:
		raw := make([]X, n)
		for i, e := range es {
			raw[i] = enc(e)
		}
		s := slice.NewSliceWrapper(raw)
		return &itCont{name: "slice", random: true, bid: true, settab: true, setBad: true,
			first: func() cit { return as(s.First()) }, last: func() cit { return as(s.Last()) },
			begin: func() cit { return as(s.Begin()) }, end: func() cit { return as(s.End()) },
			set: func(p int, e E) { raw[p] = enc(e) }}
	case 4:
		l := bidlist.New[X]()
		for _, e := range es {
			l.PushBack(enc(e))
		}
		return &itCont{name: "bidlist", bid: true, settab: true, setBad: true, eqOther: true,
			first: func() cit { return as(bidlist.NewIterator(l.FrontNode())) },
			last:  func() cit { return as(bidlist.NewIterator(l.BackNode())) }}
	case 5:
		l := simplelist.New[X]()
		for _, e := range es {
			l.PushBack(enc(e))
		}
		return &itCont{name: "simplelist", settab: true, setBad: true, eqOther: true,
			first: func() cit { return as(simplelist.NewIterator(l.FrontNode())) },
			last:  func() cit { return as(simplelist.NewIterator(l.BackNode())) }}
	case 6:
		m := treemap.New[int, X](refOrd[int])
		for _, i := range t.R.Perm(n) {
			m.Insert(es[i].K, enc(es[i]))
		}
		return &itCont{name: "map", bid: true, keyed: true, settab: true, eqOther: true,
			first: func() cit { return as(m.First()) }, last: func() cit { return as(m.Last()) }, begin: func() cit { return as(m.Begin()) }}
	case 7:
		m := treemap.NewMultiMap[int, X](refOrd[int])
		for _, e := range es {
			m.Insert(e.K, enc(e))
		}
		return &itCont{name: "multimap", bid: true, keyed: true, settab: true, eqOther: true,
			first: func() cit { return as(m.First()) }, last: func() cit { return as(m.Last()) }, begin: func() cit { return as(m.Begin()) }}
	case 8:
		s := set.New[X](cmp)
		for _, i := range t.R.Perm(n) {
			s.Insert(enc(es[i]))
		}
		return &itCont{name: "set", bid: true, eqOther: true,
			first: func() cit { return as(s.First()) }, last: func() cit { return as(s.Last()) }, begin: func() cit { return as(s.Begin()) }}
	case 9:
		tr := rbtree.New[int, X](refOrd[int])
		for _, e := range es {
			tr.Insert(e.K, enc(e))
		}
		return &itCont{name: "rbtree", bid: true, keyed: true, settab: true, eqOther: true,
			first: func() cit { return as(tr.IterFirst()) }, last: func() cit { return as(tr.IterLast()) },
			begin: func() cit { return as(rbtree.NewIterator(tr.Begin())) }}
	case 10:
		s := set.NewMultiSet[X](cmp)
		for _, e := range es {
			s.Insert(enc(e))
		}
		return &itCont{name: "multiset", bid: true, eqOther: true,
			first: func() cit { return as(s.First()) }, last: func() cit { return as(s.Last()) }, begin: func() cit { return as(s.Begin()) }}
	}
	panic("kind")
}

type itHeld struct {
	it  cit
	c   int // which container
	pos int
}

func runIterators(t *T) { walkIterators(t, []int{0, 1, 2, 3, 5, 8, 130}[t.Intn(7)]) }

func walkIterators(t *T, n int) {
	kind := t.Case % itKinds
	es := make([]E, n)
	k := t.Intn(3)
	for i := range es {
		es[i] = E{k, i}
		k += 1 + t.Intn(3)
		if (kind == 7 || kind == 9 || kind == 10) && t.Chance(3) {
			k = es[i].K // an equal key
		}
	}
	makeIt := itMaker(t, n)
	cs := []*itCont{makeIt(t, kind, es), makeIt(t, kind, es)}
	ms := [][]E{append([]E(nil), es...), append([]E(nil), es...)}
	oddKind := t.Intn(itKinds)
	odd := makeIt(t, oddKind, nil) // an iterator of something else
	c := cs[0]
	t.Op("container", c.name, n)
	t.Count("iterator walks on " + c.name)
	const invalid = -1 << 30 // of a node iterator
	norm := func(p int) int {
		if !c.random && (p < 0 || p >= n) {
			return invalid
		}
		return p
	}
	var pool []*itHeld
	verify := func(h *itHeld, what string) {
		n := len(ms[h.c])
		ok := h.pos >= 0 && h.pos < n
		if h.it.IsValid() != ok {
			t.Failf("%s: %s: IsValid() = %v at position %d of %d", c.name, what, !ok, h.pos, n)
		}
		if ok {
			want := ms[h.c][h.pos]
			if g := h.it.Value(); g != want {
				t.Failf("%s: %s: Value() = %v, want %v (position %d of %d)", c.name, what, g, want, h.pos, n)
			}
			if c.keyed {
				if g := h.it.(interface{ Key() int }).Key(); g != es[h.pos].K {
					t.Failf("%s: %s: Key() = %v, want %v", c.name, what, g, es[h.pos].K)
				}
			}
		} else {
			t.mustPanic(fmt.Sprintf("%s: %s: Value() of an invalid iterator (position %d of %d)", c.name, what, h.pos, n), func() { h.it.Value() })
		}
		if c.random {
			if g := h.it.(ra).Position(); g != h.pos {
				t.Failf("%s: %s: Position() = %d, want %d", c.name, what, g, h.pos)
			}
		}
	}
	all := func(what string) {
		for i, h := range pool {
			verify(h, fmt.Sprintf("iterator %d after %s", i, what))
		}
	}
	add := func(h *itHeld) {
		if len(pool) < 6 {
			pool = append(pool, h)
		} else {
			pool[t.Intn(6)] = h
		}
	}
	for i, nst := 0, t.steps(20+t.Intn(60)); t.more(i, nst); i++ {
		if len(pool) == 0 || t.long > 0 && len(pool) < 6 || t.Chance(8) && (t.long == 0 || t.Intn(20000) == 0) {
			w := t.Intn(2)
			x, n := cs[w], len(ms[w])
			h := &itHeld{c: w}
			switch y := t.Intn(5); {
			case y == 0 && x.begin != nil:
				h.it, h.pos = x.begin(), 0
			case y == 1 && x.end != nil:
				h.it, h.pos = x.end(), n
			case y == 2:
				h.it, h.pos = x.last(), n-1
			case y == 3 && x.at != nil:
				h.pos = t.Intn(n+2) - 1
				h.it = x.at(h.pos)
			default:
				h.it, h.pos = x.first(), 0
			}
			h.pos = norm(h.pos)
			t.Op("take", w, h.pos)
			add(h)
			all("taking one")
			continue
		}
		j := t.Intn(len(pool))
		h := pool[j]
		if c.set != nil && t.Chance(5) && (t.long == 0 || t.Intn(200) == 0) {
			// a position iterator stands on whatever is at its position
			w := t.Intn(2)
			x, n := cs[w], len(ms[w])
			e := E{t.Intn(1000), 5000 + i}
			if t.long > 0 {
				e = E{t.Intn(40), 5000}
			}
			p := t.Intn(n + 1)
			switch t.Intn(4) {
			case 0:
				p = 0
			case 1:
				p = n
			}
			switch y := t.Intn(3); {
			case y == 0 && x.ins != nil:
				t.Op("insert behind their back", w, p)
				x.ins(p, e)
				ms[w] = slices.Insert(ms[w], p, e)
				t.Count("insertions behind position iterators' back")
			case y == 1 && x.del != nil && n > 0:
				p = min(p, n-1)
				t.Op("erase behind their back", w, p)
				x.del(p)
				ms[w] = slices.Delete(ms[w], p, p+1)
				// those left more than one past the last element are dropped
				pool = slices.DeleteFunc(pool, func(h *itHeld) bool { return h.c == w && h.pos > n-1 })
				t.Count("erasures behind position iterators' back")
			case p < n:
				t.Op("write behind their back", w, p)
				x.set(p, e)
				ms[w][p] = e
				t.Count("writes behind position iterators' back")
			}
			all("a change behind their back")
			continue
		}
		n := len(ms[h.c])
		op := t.Intn(10)
		if t.long > 0 && t.Intn(1000) > 0 { // stay on the elements
			switch {
			case h.pos == invalid:
				pool = slices.Delete(pool, j, j+1)
				continue
			case op < 3 && h.pos >= n-1 && c.bid:
				op = 4
			case op >= 3 && op < 6 && h.pos <= 0:
				op = 0
			}
		}
		switch {
		case op < 3:
			steps := 1
			if n > 300 {
				steps += t.Intn(1 + t.Intn(n))
			}
			t.Op("Next", j, steps)
			for ; steps > 1; steps-- {
				h.it.Next()
				if c.random {
					h.pos = min(h.pos+1, n)
				} else {
					h.pos = norm(h.pos + 1)
				}
			}
			r := h.it.Next()
			if c.random {
				h.pos = min(h.pos+1, n)
			} else {
				h.pos = norm(h.pos + 1)
			}
			if any(r) != any(h.it) {
				t.Failf("%s: Next did not return the iterator itself", c.name)
			}
			t.Count("steps forward")
			if n > 1 {
				t.Nontrivial()
			}
		case op < 6 && c.bid:
			steps := 1
			if n > 300 {
				steps += t.Intn(1 + t.Intn(n))
			}
			t.Op("Prev", j, steps)
			back := h.it.(interface {
				Prev() iterator.ConstBidIterator[E]
			}).Prev
			for ; steps > 1; steps-- {
				back()
				if c.random {
					h.pos = max(h.pos-1, -1)
				} else {
					h.pos = norm(h.pos - 1)
				}
			}
			r := back()
			if c.random {
				h.pos = max(h.pos-1, -1)
			} else {
				h.pos = norm(h.pos - 1)
			}
			if any(r) != any(h.it) {
				t.Failf("%s: Prev did not return the iterator itself", c.name)
			}
			t.Count("steps back")
		case op == 6:
			t.Op("Clone", j)
			add(&itHeld{h.it.Clone(), h.c, h.pos})
			t.Count("clones")
		case op == 7 && c.random:
			p := t.Intn(n+2) - 1
			t.Op("IteratorAt", j, p)
			add(&itHeld{h.it.(ra).IteratorAt(p), h.c, p})
			t.Count("iterators at a position")
		case op == 8:
			ok := h.pos >= 0 && h.pos < n
			if !c.settab || (!ok && !c.setBad) {
				continue
			}
			v := E{t.Intn(1000), 1000 + i}
			if t.long > 0 { // some types have few values
				v = E{t.Intn(40), 1000}
			}
			t.Op("SetValue", j, v.K)
			if s, y := h.it.(interface{ SetValue(E) }); y {
				s.SetValue(v)
			} else if err := h.it.(interface{ SetValue(E) error }).SetValue(v); err != nil {
				t.Failf("%s: SetValue: %v", c.name, err)
			}
			if ok {
				ms[h.c][h.pos] = v
				t.Count("values set through an iterator")
			}
		default:
			t.Op("Equal", j)
			for l, o := range pool {
				if o.c != h.c && !c.eqOther {
					continue
				}
				want := o.pos == h.pos && (o.c == h.c || (!c.random && h.pos == invalid))
				if g := h.it.Equal(o.it); g != want {
					t.Failf("%s: Equal of iterator %d (container %d, position %d) and %d (container %d, position %d) = %v", c.name, j, h.c, h.pos, l, o.c, o.pos, g)
				}
				t.Count("pairs of iterators compared")
			}
			// map and multimap share their iterators, and so do set and multiset
			if oddKind != kind && !(oddKind == 6 && kind == 7) && !(oddKind == 7 && kind == 6) && !(oddKind == 8 && kind == 10) && !(oddKind == 10 && kind == 8) {
				if h.it.Equal(odd.first()) {
					t.Failf("%s: an iterator equals one of a %s", c.name, odd.name)
				}
			}
		}
		all(t.trace[len(t.trace)-1].name)
	}
	// the walk over everything, both ways, on both containers
	for w, x := range cs {
		n := len(ms[w])
		i := 0
		for it := x.first(); it.IsValid(); it.Next() {
			if i >= n || it.Value() != ms[w][i] {
				t.Failf("%s: forward walk: element %d of %d", c.name, i, n)
			}
			i++
		}
		if i != n {
			t.Failf("%s: forward walk of %d elements, want %d", c.name, i, n)
		}
		if c.bid {
			it := x.last()
			for it.IsValid() {
				i--
				if i < 0 || it.Value() != ms[w][i] {
					t.Failf("%s: backward walk: element %d of %d", c.name, i, n)
				}
				it.(interface {
					Prev() iterator.ConstBidIterator[E]
				}).Prev()
			}
			if i != 0 {
				t.Failf("%s: backward walk missed %d of %d", c.name, i, n)
			}
		}
	}
}

// ---- C30 visitors and listings ----

type visCont struct {
	name    string
	n       int
	ordered bool
	want    []E // what is visited, in order if ordered
	visit   func(f func(E) bool)
	keys    func() []E // a listing in the order of the visits; only K is meaningful
	str     func() string
	add     func(e E) // a write that must not block afterwards
}

const visKinds = 11

// noKV checks that a listing has the keys of want.
func makeVis(t *T, kind, n int) *visCont {
	c := &visCont{}
	es := make([]E, n)
	for i := range es {
		es[i] = E{t.Intn(2*n + 1), i}
	}
	dead := make([]E, t.Intn(5)) // elements inserted and removed again
	for i := range dead {
		dead[i] = E{2*n + 5 + i, -1 - i}
	}
	distinct := func() (out []E) { // the last of each key
		last := map[int]int{}
		for i, e := range es {
			last[e.K] = i
		}
		for i, e := range es {
			if last[e.K] == i {
				out = append(out, e)
			}
		}
		return
	}
	sorted := func(xs []E) []E {
		xs = append([]E(nil), xs...)
		refStable(xs, cmpK)
		return xs
	}
	c.ordered = true
	safe := t.Chance(2)
	switch kind {
	case 0, 1, 2, 3: // treemap, multimap, set, multiset
		o := makeOrd(t, []int{kMap, kMultiMap, kSet, kMultiSet}[kind], cmpK)
		if kind == 0 || kind == 2 {
			es = distinct()
		}
		for _, e := range dead {
			o.insert(e, e.ID)
		}
		for _, e := range es {
			o.insert(e, e.ID)
		}
		for _, e := range dead {
			o.erase(e)
		}
		c.name, c.want, c.str = o.name, sorted(es), o.str
		c.visit = func(f func(E) bool) {
			o.traverse(func(k E, v int) bool {
				if o.hasVal && v != k.ID {
					t.Failf("%s: Traversal gives key %v with value %d", o.name, k, v)
				}
				return f(k)
			})
		}
		c.add = func(e E) { o.insert(e, e.ID) }
	case 4:
		tr := rbtree.New[int, E](refOrd[int])
		for _, e := range es {
			tr.Insert(e.K, e)
		}
		c.name, c.want = "rbtree", sorted(es)
		c.visit = func(f func(E) bool) {
			tr.Traversal(func(k int, e E) bool {
				if k != e.K {
					t.Failf("rbtree: Traversal gives key %d with value %v", k, e)
				}
				return f(e)
			})
		}
		c.add = func(e E) { tr.Insert(e.K, e) }
	case 5:
		l := bidlist.New[E]()
		for i, e := range es {
			if i%3 == 2 {
				l.PushFront(e)
				c.want = insertAt(c.want, 0, e)
			} else {
				l.PushBack(e)
				c.want = append(c.want, e)
			}
		}
		c.name, c.visit, c.str = "bidlist", func(f func(E) bool) { l.Traversal(f) }, l.String
		c.add = l.PushBack
	case 6:
		l := simplelist.New[E]()
		for i, e := range es {
			if i%3 == 2 {
				l.PushFront(e)
				c.want = insertAt(c.want, 0, e)
			} else {
				l.PushBack(e)
				c.want = append(c.want, e)
			}
		}
		c.name, c.visit, c.str = "simplelist", func(f func(E) bool) { l.Traversal(f) }, l.String
		c.add = l.PushBack
	case 7:
		var opts []skiplist.Option
		if safe {
			opts = append(opts, skiplist.WithGoroutineSafe())
		}
		if t.Chance(2) && n < 20000 {
			opts = append(opts, skiplist.WithMaxLevel(1+t.Intn(12)))
		}
		s := skiplist.New[int, E](refOrd[int], opts...)
		for _, e := range dead {
			s.Insert(e.K, e)
		}
		for _, e := range es {
			s.Insert(e.K, e)
		}
		for _, e := range dead {
			s.Remove(e.K)
		}
		es = distinct()
		c.name, c.want = "skiplist", sorted(es)
		c.visit = func(f func(E) bool) {
			s.Traversal(func(k int, e E) bool {
				if k != e.K {
					t.Failf("skiplist: Traversal gives key %d with value %v", k, e)
				}
				return f(e)
			})
		}
		c.keys = func() (out []E) {
			for _, k := range s.Keys() {
				out = append(out, E{k, 0})
			}
			return
		}
		c.add = func(e E) { s.Insert(e.K, e) }
	case 8, 9: // 9: keys whose hashes share a long prefix
		var opts []hamt.Option
		if safe {
			opts = append(opts, hamt.WithGoroutineSafe())
		}
		h := hamt.New[E](opts...)
		names := map[string]int{}
		pool := hamtKeys(t)
		key := func(k int) hamt.Key {
			s := fmt.Sprintf("a key of no pool %d", k)
			if kind == 9 && k < len(pool) {
				s = pool[k]
			}
			names[s] = k
			return hamt.Key(s)
		}
		for _, e := range dead {
			h.Insert(key(e.K), e)
		}
		for _, e := range es {
			h.Insert(key(e.K), e)
		}
		for _, e := range dead {
			h.Erase(key(e.K))
		}
		es = distinct()
		c.name, c.want, c.ordered = "hamt", es, false
		c.visit = func(f func(E) bool) {
			h.Traversal(func(k hamt.Key, e E) bool {
				if kk, ok := names[string(k)]; !ok || kk != e.K {
					t.Failf("hamt: Traversal gives key %q with value %v", k, e)
				}
				return f(e)
			})
		}
		c.keys = func() (out []E) {
			sk := h.StringKeys()
			ks := h.Keys()
			if len(sk) != len(ks) {
				t.Failf("hamt: Keys() has %d keys, StringKeys() %d", len(ks), len(sk))
			}
			seen := map[string]bool{}
			for i, k := range ks {
				if string(k) != sk[i] {
					t.Failf("hamt: Keys()[%d] = %q, StringKeys()[%d] = %q", i, k, i, sk[i])
				}
				kk, ok := names[sk[i]]
				if !ok || seen[sk[i]] {
					t.Failf("hamt: Keys() lists %q, never inserted or twice", k)
				}
				seen[sk[i]] = true
				out = append(out, E{kk, 0})
			}
			return
		}
		c.add = func(e E) { h.Insert(key(e.K), e) }
	case 10:
		// String alone
		switch t.Intn(5) {
		case 0:
			v := vector.New[E]()
			for _, e := range es {
				v.PushBack(e)
			}
			c.name, c.str, c.add = "vector", v.String, v.PushBack
		case 1:
			a := array.New[E](n)
			for i, e := range es {
				a.Set(i, e)
			}
			c.name, c.str = "array", a.String
		case 2:
			d := deque.New[E]()
			split := t.Intn(n + 1)
			for i := split - 1; i >= 0; i-- {
				d.PushFront(es[i])
			}
			for _, e := range es[split:] {
				d.PushBack(e)
			}
			c.name, c.str, c.add = "deque", d.String, d.PushBack
		case 3:
			var opts []queue.Option[E]
			if safe {
				opts = append(opts, queue.WithGoroutineSafe[E]())
			}
			if t.Chance(2) {
				opts = append(opts, queue.WithListContainer[E]())
			}
			q := queue.New[E](opts...)
			for _, e := range es {
				q.Push(e)
			}
			c.name, c.str, c.add = "queue", q.String, q.Push
		case 4:
			var opts []stack.Option[E]
			if safe {
				opts = append(opts, stack.WithGoroutineSafe[E]())
			}
			if t.Chance(2) {
				opts = append(opts, stack.WithListContainer[E]())
			}
			q := stack.New[E](opts...)
			for _, e := range es {
				q.Push(e)
			}
			c.name, c.str, c.add = "stack", q.String, q.Push
		}
		c.want = es
	}
	c.n = len(c.want)
	return c
}

func runVisitors(t *T) {
	n := t.Intn(12)
	if t.Chance(6) {
		n = 20 + t.Intn(130)
	}
	visitAll(t, n)
}

func visitAll(t *T, n int) {
	kind := t.Case % visKinds
	c := makeVis(t, kind, n)
	n = c.n
	t.Op("container", c.name, n, showE(c.want))
	t.Count("listings of " + c.name)
	if n > 1 {
		t.Nontrivial()
	}
	listing := func(stopAt int) (out []E) {
		stopped := false
		c.visit(func(e E) bool {
			if stopped {
				t.Failf("%s: the visitor was called again after it returned false (at visit %d of %d)", c.name, len(out), n)
			}
			out = append(out, e)
			if len(out) > n {
				t.Failf("%s: more than %d visits", c.name, n)
			}
			stopped = len(out) == stopAt
			return !stopped
		})
		return
	}
	var full []E
	round := func() {
		if c.visit != nil {
			full = listing(0)
			if c.ordered && !sameElems(full, c.want) {
				t.Failf("%s: visited %s, want %s", c.name, showE(full), showE(c.want))
			}
			if !isPermutation(full, c.want) {
				t.Failf("%s: visited %s, want each of %s once", c.name, showE(full), showE(c.want))
			}
			t.CountN("elements visited", n)
		}
		if c.keys != nil {
			ks := c.keys()
			want := map[int]int{}
			for _, e := range c.want {
				want[e.K]++
			}
			for i, k := range ks {
				if c.ordered && (i >= n || k.K != c.want[i].K) {
					t.Failf("%s: Keys()[%d] = %d", c.name, i, k.K)
				}
				want[k.K]--
				if want[k.K] < 0 {
					t.Failf("%s: Keys() lists %d", c.name, k.K)
				}
			}
			if len(ks) != n {
				t.Failf("%s: Keys() has %d keys, want %d", c.name, len(ks), n)
			}
			t.Count("key listings")
		}
		if c.str != nil && n < 20000 {
			if g, w := c.str(), fmt.Sprint(c.want); g != w {
				t.Failf("%s: String() = %s, want %s", c.name, clip(g, 300), clip(w, 300))
			}
			t.Count("strings")
		}
	}
	for rep := t.steps(1); rep > 1; rep-- {
		round()
		if c.visit != nil && n > 0 {
			if k := 1 + t.Intn(n); len(listing(k)) != k {
				t.Failf("%s: not %d visits before the visitor returned false", c.name, k)
			}
		}
		t.Tick()
	}
	round()
	if c.visit != nil {
		for k := 1; k <= n; k++ {
			if n > 30 && k > 3 && k < n-1 && !t.Chance(n/10) {
				continue
			}
			t.Op("Traversal stopped at", k)
			got := listing(k)
			if len(got) != k {
				t.Failf("%s: %d visits before the visitor returned false, want %d", c.name, len(got), k)
			}
			if c.ordered && !sameElems(got, c.want[:k]) {
				t.Failf("%s: visited %s, want the first %d of %s", c.name, showE(got), k, showE(c.want))
			}
			seen := map[E]bool{}
			for _, e := range c.want {
				seen[e] = true
			}
			for _, e := range got {
				if !seen[e] {
					t.Failf("%s: visited %v twice, or it is not there", c.name, e)
				}
				delete(seen, e)
			}
			t.Count("visits stopped early")
		}
		t.Op("again")
		round()
	}
	if c.add != nil {
		c.add(E{1 << 20, -99})
	}
}

func init() {
	register(&Prop{ID: "C29",
		Rule: "random walks of up to 6 iterators over two equal containers of one of 11 kinds (0-130 elements): Begin, End, First, Last, IterAt, IteratorAt, Next, Prev, Clone, SetValue, Equal; after every step each iterator's validity, value, key and position are compared with a position model, and at the end both containers are walked both ways; non-trivial when an iterator moved over two or more elements",
		Suites: []Suite{
			{Name: "walks", Quick: 180000, Thorough: 1500000, Run: runIterators},
		}, Require: []string{"steps forward", "steps back", "clones", "iterators at a position", "values set through an iterator", "pairs of iterators compared", "insertions behind position iterators' back", "erasures behind position iterators' back", "writes behind position iterators' back", "panics expected and seen", "iterator walks on rbtree", "iterator walks on slice", "iterator walks on multiset"}})
	register(&Prop{ID: "C30",
		Rule: "containers of 11 kinds filled with 0-150 random elements (some removed again); the full visit, Keys, StringKeys and String are compared with the model, then the visit is stopped after k elements for every k (large ones: a sample), and everything is listed again; non-trivial with two or more elements",
		Suites: []Suite{
			{Name: "listings", Quick: 360000, Thorough: 1500000, Run: runVisitors},
		}, Require: []string{"elements visited", "visits stopped early", "key listings", "strings", "listings of hamt", "listings of skiplist", "listings of rbtree"}})
}
