package main

import (
	"fmt"
	"reflect"
	"unsafe"

	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/rbtree"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/utils/comparator"
)

// ---- one face for the five ordered containers ----

type ordIter interface {
	valid() bool
	key() E
	val() int
	set(v int)
	next()
	prev()
	clone() ordIter
	eq(ordIter) bool
}

type rbIt[X, V any] struct {
	i  *rbtree.RbTreeIterator[X, V]
	ks *codec[E, X]
	vs *codec[int, V]
}

func (x rbIt[X, V]) valid() bool { return x.i.IsValid() }
func (x rbIt[X, V]) key() E      { return x.ks.dec(x.i.Key()) }
func (x rbIt[X, V]) val() int    { return x.vs.dec(x.i.Value()) }
func (x rbIt[X, V]) set(v int)   { x.i.SetValue(x.vs.enc(v)) }
func (x rbIt[X, V]) next()       { x.i.Next() }
func (x rbIt[X, V]) prev()       { x.i.Prev() }
func (x rbIt[X, V]) clone() ordIter {
	return rbIt[X, V]{x.i.Clone().(*rbtree.RbTreeIterator[X, V]), x.ks, x.vs}
}
func (x rbIt[X, V]) eq(o ordIter) bool {
	return x.i.Equal(o.(rbIt[X, V]).i)
}

// nodeIt walks bare RbTree nodes.
type nodeIt[X, V any] struct {
	n  *rbtree.Node[X, V]
	ks *codec[E, X]
	vs *codec[int, V]
}

func (x *nodeIt[X, V]) valid() bool       { return x.n != nil }
func (x *nodeIt[X, V]) key() E            { return x.ks.dec(x.n.Key()) }
func (x *nodeIt[X, V]) val() int          { return x.vs.dec(x.n.Value()) }
func (x *nodeIt[X, V]) set(v int)         { x.n.SetValue(x.vs.enc(v)) }
func (x *nodeIt[X, V]) next()             { x.n = x.n.Next() }
func (x *nodeIt[X, V]) prev()             { x.n = x.n.Prev() }
func (x *nodeIt[X, V]) clone() ordIter    { return &nodeIt[X, V]{x.n, x.ks, x.vs} }
func (x *nodeIt[X, V]) eq(o ordIter) bool { return x.n == o.(*nodeIt[X, V]).n }

type mapIt[X, V any] struct {
	i  *treemap.MapIterator[X, V]
	ks *codec[E, X]
	vs *codec[int, V]
}

func (x mapIt[X, V]) valid() bool { return x.i.IsValid() }
func (x mapIt[X, V]) key() E      { return x.ks.dec(x.i.Key()) }
func (x mapIt[X, V]) val() int    { return x.vs.dec(x.i.Value()) }
func (x mapIt[X, V]) set(v int)   { x.i.SetValue(x.vs.enc(v)) }
func (x mapIt[X, V]) next()       { x.i.Next() }
func (x mapIt[X, V]) prev()       { x.i.Prev() }
func (x mapIt[X, V]) clone() ordIter {
	return mapIt[X, V]{x.i.Clone().(*treemap.MapIterator[X, V]), x.ks, x.vs}
}
func (x mapIt[X, V]) eq(o ordIter) bool {
	return x.i.Equal(o.(mapIt[X, V]).i)
}

type setIt[X any] struct {
	i  *set.SetIterator[X]
	ks *codec[E, X]
}

func (x setIt[X]) valid() bool    { return x.i.IsValid() }
func (x setIt[X]) key() E         { return x.ks.dec(x.i.Value()) }
func (x setIt[X]) val() int       { return 0 }
func (x setIt[X]) set(v int)      {}
func (x setIt[X]) next()          { x.i.Next() }
func (x setIt[X]) prev()          { x.i.Prev() }
func (x setIt[X]) clone() ordIter { return setIt[X]{x.i.Clone().(*set.SetIterator[X]), x.ks} }
func (x setIt[X]) eq(o ordIter) bool {
	return x.i.Equal(o.(setIt[X]).i)
}

type ordCont struct {
	name               string
	multi, hasVal      bool
	insert             func(k E, v int)
	erase              func(k E) // erases all equal ones, or for a multiset one
	eraseOne           bool
	eraseAll           func(k E)
	eraseIter          func(it ordIter)
	find, lower, upper func(k E) ordIter
	begin, first, last func() ordIter
	size               func() int
	empty              func() bool
	contains           func(k E) bool
	get                func(k E) (int, error)
	count              func(k E) int
	clear              func()
	traverse           func(f func(k E, v int) bool)
	str                func() string
	isRB               func() (bool, error)   // of a bare tree
	tree               *rbtree.RbTree[E, int] // a bare tree of the usual types
	types              string
}

const (
	kTree = iota
	kTreeNodes
	kMap
	kMultiMap
	kSet
	kMultiSet
)

// makeOrdE makes a container of E's (to ints).
func makeOrdE(t *T, kind int, cmp comparator.Comparator[E]) *ordCont {
	return makeOrdOf(t, kind, cmp, plain[E](), plain[int]())
}

func makeOrdOf[X, V any](t *T, kind int, cmp comparator.Comparator[X], ks *codec[E, X], vs *codec[int, V]) *ordCont {
	safe := t.safe || t.Chance(2)
	both := func(f func(E, int) bool) func(X, V) bool {
		return func(x X, v V) bool { return f(ks.dec(x), vs.dec(v)) }
	}
	get := func(v V, err error) (int, error) { return vs.dec(v), err }
	mi := func(i *treemap.MapIterator[X, V]) ordIter { return mapIt[X, V]{i, ks, vs} }
	si := func(i *set.SetIterator[X]) ordIter { return setIt[X]{i, ks} }
	switch kind {
	case kTree, kTreeNodes:
		tr := rbtree.New[X, V](cmp)
		it := func(n *rbtree.Node[X, V]) ordIter {
			if kind == kTreeNodes {
				return &nodeIt[X, V]{n, ks, vs}
			}
			return rbIt[X, V]{rbtree.NewIterator(n), ks, vs}
		}
		c := &ordCont{name: "rbtree", multi: true, hasVal: true, isRB: tr.IsRbTree,
			insert: func(k E, v int) { tr.Insert(ks.enc(k), vs.enc(v)) },
			find:   func(k E) ordIter { return it(tr.FindNode(ks.enc(k))) },
			lower:  func(k E) ordIter { return it(tr.FindLowerBoundNode(ks.enc(k))) },
			upper:  func(k E) ordIter { return it(tr.FindUpperBoundNode(ks.enc(k))) },
			begin:  func() ordIter { return it(tr.Begin()) },
			first:  func() ordIter { return it(tr.First()) },
			last:   func() ordIter { return it(tr.Last()) },
			size:   tr.Size, empty: tr.Empty, clear: tr.Clear,
			get:      func(k E) (int, error) { return get(tr.Find(ks.enc(k))) },
			traverse: func(f func(E, int) bool) { tr.Traversal(both(f)) },
		}
		c.tree, _ = any(tr).(*rbtree.RbTree[E, int])
		if kind == kTree {
			c.first = func() ordIter { return rbIt[X, V]{tr.IterFirst(), ks, vs} }
			c.last = func() ordIter { return rbIt[X, V]{tr.IterLast(), ks, vs} }
		} else {
			c.last = func() ordIter { return it(tr.RBegin()) }
		}
		del := func(n *rbtree.Node[X, V]) { tr.Delete(n) }
		c.erase = func(k E) { del(tr.FindNode(ks.enc(k))) }
		c.eraseOne = true
		c.eraseIter = func(i ordIter) {
			if x, ok := i.(*nodeIt[X, V]); ok {
				del(x.n)
				return
			}
			// reach the node itself through its position
			want := i.(rbIt[X, V]).i
			for n := tr.First(); n != nil; n = n.Next() {
				if rbtree.NewIterator(n).Equal(want) {
					del(n)
					return
				}
			}
			t.Failf("an iterator of a live entry is on no node of the tree")
		}
		return c
	case kMap:
		var opts []treemap.Option
		if safe {
			opts = append(opts, treemap.WithGoroutineSafe())
		}
		m := treemap.New[X, V](cmp, opts...)
		return &ordCont{name: "map", hasVal: true,
			insert:    func(k E, v int) { m.Insert(ks.enc(k), vs.enc(v)) },
			erase:     func(k E) { m.Erase(ks.enc(k)) },
			eraseIter: func(i ordIter) { m.EraseIter(i.(mapIt[X, V]).i) },
			find:      func(k E) ordIter { return mi(m.Find(ks.enc(k))) },
			lower:     func(k E) ordIter { return mi(m.LowerBound(ks.enc(k))) },
			upper:     func(k E) ordIter { return mi(m.UpperBound(ks.enc(k))) },
			begin:     func() ordIter { return mi(m.Begin()) },
			first:     func() ordIter { return mi(m.First()) },
			last:      func() ordIter { return mi(m.Last()) },
			contains:  func(k E) bool { return m.Contains(ks.enc(k)) },
			get:       func(k E) (int, error) { return get(m.Get(ks.enc(k))) },
			size:      m.Size, clear: m.Clear,
			traverse: func(f func(E, int) bool) { m.Traversal(both(f)) }}
	case kMultiMap:
		var opts []treemap.Option
		if safe {
			opts = append(opts, treemap.WithGoroutineSafe())
		}
		m := treemap.NewMultiMap[X, V](cmp, opts...)
		return &ordCont{name: "multimap", multi: true, hasVal: true,
			insert:   func(k E, v int) { m.Insert(ks.enc(k), vs.enc(v)) },
			erase:    func(k E) { m.Erase(ks.enc(k)) },
			find:     func(k E) ordIter { return mi(m.Find(ks.enc(k))) },
			lower:    func(k E) ordIter { return mi(m.LowerBound(ks.enc(k))) },
			upper:    func(k E) ordIter { return mi(m.UpperBound(ks.enc(k))) },
			begin:    func() ordIter { return mi(m.Begin()) },
			first:    func() ordIter { return mi(m.First()) },
			last:     func() ordIter { return mi(m.Last()) },
			contains: func(k E) bool { return m.Contains(ks.enc(k)) },
			get:      func(k E) (int, error) { return get(m.Get(ks.enc(k))) },
			size:     m.Size, clear: m.Clear,
			traverse: func(f func(E, int) bool) { m.Traversal(both(f)) }}
	case kSet:
		var opts []set.Option
		if safe {
			opts = append(opts, set.WithGoroutineSafe())
		}
		s := set.New[X](cmp, opts...)
		return &ordCont{name: "set",
			insert:   func(k E, v int) { s.Insert(ks.enc(k)) },
			erase:    func(k E) { s.Erase(ks.enc(k)) },
			find:     func(k E) ordIter { return si(s.Find(ks.enc(k))) },
			lower:    func(k E) ordIter { return si(s.LowerBound(ks.enc(k))) },
			upper:    func(k E) ordIter { return si(s.UpperBound(ks.enc(k))) },
			begin:    func() ordIter { return si(s.Begin()) },
			first:    func() ordIter { return si(s.First()) },
			last:     func() ordIter { return si(s.Last()) },
			contains: func(k E) bool { return s.Contains(ks.enc(k)) },
			size:     s.Size, clear: s.Clear, str: s.String,
			traverse: func(f func(E, int) bool) { s.Traversal(func(k X) bool { return f(ks.dec(k), 0) }) }}
	case kMultiSet:
		var opts []set.Option
		if safe {
			opts = append(opts, set.WithGoroutineSafe())
		}
		s := set.NewMultiSet[X](cmp, opts...)
		return &ordCont{name: "multiset", multi: true, eraseOne: true,
			insert:   func(k E, v int) { s.Insert(ks.enc(k)) },
			erase:    func(k E) { s.Erase(ks.enc(k)) },
			eraseAll: func(k E) { s.EraseAll(ks.enc(k)) },
			count:    func(k E) int { return s.Count(ks.enc(k)) },
			find:     func(k E) ordIter { return si(s.Find(ks.enc(k))) },
			lower:    func(k E) ordIter { return si(s.LowerBound(ks.enc(k))) },
			upper:    func(k E) ordIter { return si(s.UpperBound(ks.enc(k))) },
			begin:    func() ordIter { return si(s.Begin()) },
			first:    func() ordIter { return si(s.First()) },
			last:     func() ordIter { return si(s.Last()) },
			contains: func(k E) bool { return s.Contains(ks.enc(k)) },
			size:     s.Size, clear: s.Clear, str: s.String,
			traverse: func(f func(E, int) bool) { s.Traversal(func(k X) bool { return f(ks.dec(k), 0) }) }}
	}
	panic("kind")
}

// ---- the red-black structure, read from outside ----

type rbLayout struct {
	ok                         bool
	root                       uintptr
	parent, left, right, color uintptr
}

var rbLay = findRbLayout()

func findRbLayout() (l rbLayout) {
	nt := reflect.TypeOf(rbtree.Node[E, int]{})
	tt := reflect.TypeOf(rbtree.RbTree[E, int]{})
	pt := reflect.PointerTo(nt)
	rf, ok := tt.FieldByName("root")
	if !ok || rf.Type != pt {
		return
	}
	l.root = rf.Offset
	for _, f := range []struct {
		name string
		off  *uintptr
	}{{"parent", &l.parent}, {"left", &l.left}, {"right", &l.right}} {
		sf, ok := nt.FieldByName(f.name)
		if !ok || sf.Type != pt {
			return
		}
		*f.off = sf.Offset
	}
	cf, ok := nt.FieldByName("color")
	if !ok || cf.Type.Kind() != reflect.Bool {
		return
	}
	l.color = cf.Offset
	l.ok = true
	return
}

type rnode = rbtree.Node[E, int]

func nodeField(n *rnode, off uintptr) *rnode { return *(**rnode)(unsafe.Add(unsafe.Pointer(n), off)) }
func nodeBlack(n *rnode) bool {
	return n == nil || *(*bool)(unsafe.Add(unsafe.Pointer(n), rbLay.color)) == rbtree.BLACK
}
func treeRoot(tr *rbtree.RbTree[E, int]) *rnode {
	return *(**rnode)(unsafe.Add(unsafe.Pointer(tr), rbLay.root))
}

// rbValid recomputes the red-black properties; why is empty if they hold.
func rbValid(tr *rbtree.RbTree[E, int], cmp comparator.Comparator[E]) (why string, n, height int) {
	root := treeRoot(tr)
	if !nodeBlack(root) {
		return "the root is red", 0, 0
	}
	if root != nil && nodeField(root, rbLay.parent) != nil {
		return "the root has a parent", 0, 0
	}
	var walk func(x *rnode) (black, h int)
	walk = func(x *rnode) (int, int) {
		if x == nil || why != "" {
			return 1, 0
		}
		n++
		l, r := nodeField(x, rbLay.left), nodeField(x, rbLay.right)
		for _, c := range []*rnode{l, r} {
			if c != nil && nodeField(c, rbLay.parent) != x {
				why = fmt.Sprintf("a child of %v does not have it as its parent", x.Key())
				return 1, 0
			}
			if !nodeBlack(x) && !nodeBlack(c) {
				why = fmt.Sprintf("the red node %v has a red child", x.Key())
			}
		}
		if l != nil && cmp(l.Key(), x.Key()) > 0 || r != nil && cmp(r.Key(), x.Key()) < 0 {
			why = fmt.Sprintf("the children of %v are on the wrong side", x.Key())
		}
		bl, hl := walk(l)
		br, hr := walk(r)
		if why == "" && bl != br {
			why = fmt.Sprintf("black heights below %v are %d and %d", x.Key(), bl, br)
		}
		if nodeBlack(x) {
			bl++
		}
		return bl, max(hl, hr) + 1
	}
	_, height = walk(root)
	return
}

func log2ceil(n int) int {
	l := 0
	for 1<<l < n {
		l++
	}
	return l
}

// ---- the model ----

type entry struct {
	k E
	v int
	s int // serial number: the identity of the entry
}

type ordMon struct {
	t      *T
	c      *ordCont
	cmp    comparator.Comparator[E]
	cname  string
	m      []entry
	id     int
	serial int
	deep   bool // full walks after every operation
	keys   int
	held   []heldIter
}

type heldIter struct {
	it ordIter
	s  int
}

func (o *ordMon) lb(k E) int {
	i := 0
	for i < len(o.m) && o.cmp(o.m[i].k, k) < 0 {
		i++
	}
	return i
}

func (o *ordMon) ub(k E) int {
	i := o.lb(k)
	for i < len(o.m) && o.cmp(o.m[i].k, k) == 0 {
		i++
	}
	return i
}

func (o *ordMon) at(what string, it ordIter, i int) {
	if i >= len(o.m) || i < 0 {
		if it.valid() {
			o.t.Failf("%s: %s is on %v, want no element", o.c.name, what, it.key())
		}
		return
	}
	if !it.valid() {
		o.t.Failf("%s: %s is invalid, want %v", o.c.name, what, o.m[i].k)
	}
	if it.key() != o.m[i].k || (o.c.hasVal && it.val() != o.m[i].v) {
		o.t.Failf("%s: %s is on %v=%d, want %v=%d", o.c.name, what, it.key(), it.val(), o.m[i].k, o.m[i].v)
	}
}

func (o *ordMon) check() {
	t, c := o.t, o.c
	n := len(o.m)
	if c.size() != n {
		t.Failf("%s: Size() = %d, want %d", c.name, c.size(), n)
	}
	if c.empty != nil && c.empty() != (n == 0) {
		t.Failf("%s: Empty() = %v with %d elements", c.name, c.empty(), n)
	}
	o.at("Begin()", c.begin(), 0)
	o.at("First()", c.first(), 0)
	o.at("Last()", c.last(), n-1)
	i := 0
	for it := c.first(); it.valid(); it.next() {
		if i >= n {
			t.Failf("%s: iteration does not end after %d elements", c.name, n)
		}
		o.at(fmt.Sprintf("element %d forwards", i), it, i)
		i++
	}
	if i != n {
		t.Failf("%s: iteration gave %d elements, want %d", c.name, i, n)
	}
	for it := c.last(); it.valid(); it.prev() {
		i--
		if i < 0 {
			t.Failf("%s: backward iteration does not end after %d elements", c.name, n)
		}
		o.at(fmt.Sprintf("element %d backwards", i), it, i)
	}
	if i != 0 {
		t.Failf("%s: backward iteration missed %d elements", c.name, i)
	}
	i = 0
	c.traverse(func(k E, v int) bool {
		if i >= n || k != o.m[i].k || (c.hasVal && v != o.m[i].v) {
			t.Failf("%s: Traversal gives %v=%d at step %d", c.name, k, v, i)
		}
		i++
		return true
	})
	if i != n {
		t.Failf("%s: Traversal gave %d elements, want %d", c.name, i, n)
	}
	if c.isRB != nil {
		if ok, err := c.isRB(); !ok {
			t.Failf("rbtree: IsRbTree() = false, %v", err)
		}
		if rbLay.ok && c.tree != nil {
			why, cnt, h := rbValid(c.tree, o.cmp)
			if why != "" {
				t.Failf("rbtree: %s (%d entries)", why, n)
			}
			if cnt != n {
				t.Failf("rbtree: %d nodes are linked, want %d", cnt, n)
			}
			if h > 2*log2ceil(n+1)+1 {
				t.Failf("rbtree: height %d with %d entries", h, n)
			}
			t.Count("red-black structures recomputed")
		}
	}
	for _, h := range o.held {
		o.checkHeld(h)
	}
}

func (o *ordMon) checkHeld(h heldIter) {
	for i := range o.m {
		if o.m[i].s == h.s {
			o.at("a held iterator", h.it, i)
			x := h.it.clone()
			x.next()
			o.at("the successor of a held iterator", x, i+1)
			x = h.it.clone()
			x.prev()
			o.at("the predecessor of a held iterator", x, i-1)
			o.at("a held iterator whose clone moved", h.it, i)
			o.t.Count("held iterators checked")
			return
		}
	}
	panic("a held iterator of no entry")
}

func (o *ordMon) probe(k E) {
	t, c := o.t, o.c
	lb, ub := o.lb(k), o.ub(k)
	o.at(fmt.Sprintf("LowerBound(%v)", k), c.lower(k), lb)
	o.at(fmt.Sprintf("UpperBound(%v)", k), c.upper(k), ub)
	if lb < ub {
		o.at(fmt.Sprintf("Find(%v)", k), c.find(k), lb)
		t.Count("lookups that hit")
	} else {
		o.at(fmt.Sprintf("Find(%v)", k), c.find(k), -1)
		t.Count("lookups that miss")
	}
	if c.contains != nil && c.contains(k) != (lb < ub) {
		t.Failf("%s: Contains(%v) = %v", c.name, k, c.contains(k))
	}
	if c.get != nil {
		v, err := c.get(k)
		if lb < ub && (err != nil || v != o.m[lb].v) {
			t.Failf("%s: Get(%v) = %d, %v, want %d", c.name, k, v, err, o.m[lb].v)
		}
		if lb == ub && (err == nil || v != 0) {
			t.Failf("%s: Get(%v) = %d, %v for a key that is not there", c.name, k, v, err)
		}
	}
	if c.count != nil {
		if g := c.count(k); g != ub-lb {
			t.Failf("%s: Count(%v) = %d, want %d", c.name, k, g, ub-lb)
		}
	}
}

func (o *ordMon) key() E {
	o.id++
	return E{o.t.Intn(o.keys) - o.keys/3, o.id}
}

func (o *ordMon) insert(k E) {
	o.serial++
	v := o.serial
	o.t.Op("Insert", k.K, k.ID, v)
	o.c.insert(k, v)
	lb, ub := o.lb(k), o.ub(k)
	if lb < ub && !o.c.multi {
		o.t.Count("insertions of an equal key")
		if o.c.hasVal { // a map takes the new value; which of two equal keys it keeps is not specified
			o.m[lb].v = v
			it := o.c.find(k)
			if it.valid() && (it.key() == o.m[lb].k || it.key() == k) {
				o.m[lb].k = it.key()
			}
		}
		return
	}
	if lb < ub {
		o.t.Count("insertions of an equal key")
	}
	o.m = insertAt(o.m, ub, entry{k, v, o.serial})
}

func (o *ordMon) drop(lo, hi int) {
	if lo >= hi {
		return
	}
	var keep []heldIter
	for _, h := range o.held {
		gone := false
		for _, e := range o.m[lo:hi] {
			gone = gone || e.s == h.s
		}
		if !gone {
			keep = append(keep, h)
		}
	}
	o.held = keep
	o.m = eraseRange(o.m, lo, hi)
	o.t.CountN("entries erased", hi-lo)
}

func (o *ordMon) erase(k E) {
	o.t.Op("Erase", k.K)
	o.c.erase(k)
	lb, ub := o.lb(k), o.ub(k)
	if o.c.eraseOne && ub > lb {
		ub = lb + 1
	}
	o.drop(lb, ub)
}

// iterTo gives an iterator on the entry at index i, reached in different ways.
func (o *ordMon) iterTo(i int) ordIter {
	n := len(o.m)
	var it ordIter
	steps := 0
	switch o.t.Intn(4) {
	case 0:
		it = o.c.first()
		steps = i
	case 1:
		it = o.c.last()
		steps = i - (n - 1)
	case 2:
		it = o.c.lower(o.m[i].k)
		steps = i - o.lb(o.m[i].k)
	default:
		it = o.c.find(o.m[i].k)
		steps = i - o.lb(o.m[i].k)
	}
	for ; steps > 0; steps-- {
		it.next()
	}
	for ; steps < 0; steps++ {
		it.prev()
	}
	return it
}

func (o *ordMon) pickKey() E {
	if n := len(o.m); n > 0 && !o.t.Chance(3) {
		k := o.m[o.t.Intn(n)].k
		o.id++
		k.ID = o.id
		switch o.t.Intn(4) {
		case 0:
			k.K++
		case 1:
			k.K--
		}
		return k
	}
	return o.key()
}

func (o *ordMon) step(target int) {
	t, c := o.t, o.c
	n := len(o.m)
	grow := n < target/2 || n < target && t.Chance(2)
	switch op := t.Intn(20); {
	case op < 11:
		if grow {
			if t.Chance(6) { // a run in order
				k := o.key()
				d := t.Intn(3) - 1
				for j := t.Intn(12); j > 0; j-- {
					o.insert(k)
					o.id++
					k = E{k.K + d, o.id}
				}
			} else {
				o.insert(o.key())
			}
		} else {
			o.erase(o.pickKey())
		}
	case op < 13:
		o.erase(o.pickKey())
	case op < 15:
		if n > 0 && c.eraseIter != nil {
			i := t.Intn(n)
			t.Op("EraseIter", i)
			it := o.iterTo(i)
			o.at("an iterator about to be erased", it, i)
			c.eraseIter(it)
			o.drop(i, i+1)
			t.Count("erasures through an iterator")
		}
	case op < 16:
		if c.eraseAll != nil {
			k := o.pickKey()
			t.Op("EraseAll", k.K)
			c.eraseAll(k)
			o.drop(o.lb(k), o.ub(k))
		}
	case op < 18:
		if n > 0 && c.hasVal {
			i := t.Intn(n)
			o.serial++
			t.Op("SetValue", i, o.serial)
			o.iterTo(i).set(o.serial)
			o.m[i].v = o.serial
		}
	case op < 19:
		stop := t.Intn(n + 2)
		t.Op("Traversal", stop)
		seen := 0
		c.traverse(func(k E, v int) bool { seen++; return seen < stop })
		if want := min(n, max(stop, 1)); seen != want {
			t.Failf("%s: a Traversal told to stop after %d of %d saw %d", c.name, stop, n, seen)
		}
		if c.str != nil && n < 200 {
			var ks []E
			for _, e := range o.m {
				ks = append(ks, e.k)
			}
			if g, w := c.str(), fmt.Sprint(ks); g != w {
				t.Failf("%s: String() = %s, want %s", c.name, clip(g, 300), clip(w, 300))
			}
		}
	default:
		if t.Chance(25) {
			t.Op("Clear")
			c.clear()
			o.drop(0, n)
			t.Count("clears")
		}
	}
}

func newOrdMon(t *T, kind int) *ordMon {
	o := &ordMon{t: t}
	o.cname, o.cmp = pickCmp(t)
	o.c = makeOrd(t, kind, o.cmp)
	return o
}

func runOrd(kinds ...int) func(t *T) {
	return func(t *T) {
		o := newOrdMon(t, kinds[t.Case%len(kinds)])
		target := t.level(3, 8, 30, 120, 300)
		if t.long == 0 && t.Chance(100) {
			target = 3000
		} else if target <= 120 && t.Chance(8) {
			o.few(kinds[t.Case%len(kinds)])
		}
		o.keys = []int{3, target/3 + 1, target + 2, 1 << 30}[t.Intn(4)]
		t.Op("New", o.c.name, o.cname, o.keys)
		nst := t.steps(40 + t.Intn(40) + min(target, 300))
		every := 1 + target/60
		for i := 0; t.more(i, nst); i++ {
			o.step(target)
			if target > 500 && len(o.m) < target/2 && t.Chance(2) {
				for j := 0; j < 100; j++ {
					o.insert(o.key())
				}
			}
			if i%every == 0 {
				o.check()
			}
			o.probe(o.pickKey())
			if len(o.m) > 3 {
				t.Nontrivial()
			}
			if len(o.m) < 7 {
				h := uint64(0)
				for _, e := range o.m {
					h = mix(h, uint64(e.k.K))
				}
				t.State(h)
			}
		}
		// erase the rest in some order
		o.check()
		mode := t.Intn(3)
		for k := 0; len(o.m) > 0; k++ {
			i := 0
			switch mode {
			case 1:
				i = len(o.m) - 1
			case 2:
				i = t.Intn(len(o.m))
			}
			o.erase(o.m[i].k)
			if k%every == 0 {
				o.check()
			}
		}
		o.check()
		o.insert(o.key())
		o.check()
		t.Count("histories of " + o.c.name)
	}
}

// runRbSmall: all insertion orders of n keys with all erasure orders.
func runRbSmall(n int) func(t *T) {
	perms := permutations(n)
	return func(t *T) {
		ins := perms[t.Case%len(perms)]
		t.Op("insertion order", fmt.Sprint(ins))
		dup := t.Case / len(perms) // 0: distinct keys, 1: pairs of equal keys
		for _, del := range perms {
			o := &ordMon{t: t, cmp: cmpK, cname: "natural", keys: 10}
			o.c = makeOrdE(t, kTreeNodes, cmpK)
			for _, k := range ins {
				o.insert(E{k >> dup, k})
			}
			o.check()
			nodes := map[int]ordIter{}
			for it := o.c.first(); it.valid(); it.next() {
				nodes[it.key().ID] = it.clone()
			}
			for _, k := range del {
				for i := range o.m {
					if o.m[i].k.ID == k {
						// the node may be reached again by its place
						o.c.eraseIter(o.iterTo(i))
						o.drop(i, i+1)
						break
					}
				}
				o.check()
			}
			t.trace = t.trace[:1]
		}
		t.Nontrivial()
	}
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append([]int(nil), p[:i]...)
			q = append(q, n-1)
			out = append(out, append(q, p[i:]...))
		}
	}
	return out
}

// runRbJudge: IsRbTree tells broken trees from sound ones: colours are flipped
// in a sound tree and the verdict compared with the properties recomputed.
func runRbJudge(t *T) {
	if !rbLay.ok {
		t.Op("the node layout is not known")
		t.Count("trees judged with flipped colours")
		t.Nontrivial()
		return
	}
	tr := rbtree.New[E, int](cmpK)
	n := 1 + t.Intn(20)
	for i := 0; i < n; i++ {
		tr.Insert(E{t.Intn(40), i}, i)
	}
	var nodes []*rnode
	for x := tr.First(); x != nil; x = x.Next() {
		nodes = append(nodes, x)
	}
	for i := 0; i < 6; i++ {
		x := nodes[t.Intn(len(nodes))]
		p := (*bool)(unsafe.Add(unsafe.Pointer(x), rbLay.color))
		*p = !*p
		t.Op("flip", n, x.Key().K, i)
		why, _, _ := rbValid(tr, cmpK)
		ok, err := tr.IsRbTree()
		if ok != (why == "") {
			t.Failf("IsRbTree() = %v (%v) for a tree of %d nodes where: %q", ok, err, n, why)
		}
		if ok {
			t.Count("trees judged sound")
		} else {
			t.Count("trees judged broken")
		}
		t.Count("trees judged with flipped colours")
	}
	t.Nontrivial()
}

// ---- C18 stability ----

func runStability(t *T) {
	kind := []int{kTree, kTreeNodes, kMap, kMultiMap, kSet, kMultiSet}[t.Case%6]
	o := newOrdMon(t, kind)
	target := t.level(4, 10, 40, 120)
	o.keys = []int{target/3 + 1, target * 2, 1 << 30}[t.Intn(3)]
	t.Op("New", o.c.name, o.cname, o.keys)
	for i := 0; i < target; i++ {
		o.insert(o.key())
	}
	for i, nst := 0, t.steps(30+t.Intn(2*target)); t.more(i, nst); i++ {
		if len(o.m) > 0 && len(o.held) < 6 {
			j := t.Intn(len(o.m))
			o.held = append(o.held, heldIter{o.iterTo(j), o.m[j].s})
			t.Op("hold", j)
		}
		before := len(o.held)
		if len(o.held) > 0 && t.Chance(5) {
			// act through a held iterator
			h := o.held[t.Intn(len(o.held))]
			for j := range o.m {
				if o.m[j].s == h.s {
					if o.c.eraseIter != nil && t.Chance(2) {
						t.Op("erase held", j)
						o.c.eraseIter(h.it)
						o.drop(j, j+1)
						t.Count("erasures through a held iterator")
					} else if o.c.hasVal {
						o.serial++
						t.Op("set held", j, o.serial)
						h.it.set(o.serial)
						o.m[j].v = o.serial
						t.Count("values set through a held iterator")
					}
					break
				}
			}
		} else if t.Chance(2) && len(o.m) > 1 && len(o.held) > 0 {
			// erase a neighbour of a held entry: the hard case for trees
			h := o.held[t.Intn(len(o.held))]
			for j := range o.m {
				if o.m[j].s == h.s {
					nb := j + 1 - 2*t.Intn(2)
					if nb >= 0 && nb < len(o.m) && o.cmp(o.m[nb].k, o.m[j].k) != 0 {
						o.erase(o.m[nb].k)
						t.Count("neighbours of held entries erased")
					}
					break
				}
			}
		} else {
			o.step(target)
		}
		_ = before
		o.check()
		if len(o.held) > 0 {
			t.Nontrivial()
		}
	}
	t.Count("histories of " + o.c.name)
}

// ---- C17 set algebra ----

// algebraSet is what C17 needs of a set, whatever the type of its elements.
type algebraSet interface {
	Insert(E)
	Erase(E)
	Contains(E) bool
	found(E) bool
	Size() int
	list() []E
	Intersect(algebraSet) algebraSet
	Union(algebraSet) algebraSet
	Diff(algebraSet) algebraSet
}

type setFace[X any] struct {
	s  *set.Set[X]
	ks *codec[E, X]
}

func (f setFace[X]) Insert(e E)        { f.s.Insert(f.ks.enc(e)) }
func (f setFace[X]) Erase(e E)         { f.s.Erase(f.ks.enc(e)) }
func (f setFace[X]) Contains(e E) bool { return f.s.Contains(f.ks.enc(e)) }
func (f setFace[X]) found(e E) bool    { return f.s.Find(f.ks.enc(e)).IsValid() }
func (f setFace[X]) Size() int         { return f.s.Size() }
func (f setFace[X]) list() (out []E) {
	f.s.Traversal(func(x X) bool { out = append(out, f.ks.dec(x)); return true })
	return
}
func (f setFace[X]) Intersect(o algebraSet) algebraSet {
	return setFace[X]{f.s.Intersect(o.(setFace[X]).s), f.ks}
}
func (f setFace[X]) Union(o algebraSet) algebraSet {
	return setFace[X]{f.s.Union(o.(setFace[X]).s), f.ks}
}
func (f setFace[X]) Diff(o algebraSet) algebraSet {
	return setFace[X]{f.s.Diff(o.(setFace[X]).s), f.ks}
}

// algebraSets says how the sets of one case are made: three times out of
// four of E's.
func algebraSets(t *T, cmp comparator.Comparator[E]) func(...set.Option) algebraSet {
	if !t.Chance(4) {
		return func(opts ...set.Option) algebraSet { return setFace[E]{set.New[E](cmp, opts...), plain[E]()} }
	}
	switch t.Intn(9) {
	case 0:
		return algebraOf(t, cmp, kString)
	case 1:
		return algebraOf(t, cmp, kNamed)
	case 2:
		return algebraOf(t, cmp, kFloat)
	case 3:
		return algebraOf(t, cmp, kInt64)
	case 4:
		return algebraOf(t, cmp, kUint)
	case 5:
		return algebraOf(t, cmp, kPtr)
	case 6:
		return algebraOf(t, cmp, kStruct)
	case 7:
		return algebraOf(t, cmp, kSlice)
	}
	return algebraOf(t, cmp, kAny)
}

func algebraOf[X any](t *T, cmp comparator.Comparator[E], k kindOf[X]) func(...set.Option) algebraSet {
	ks := newCodec[E](k)
	t.Op("type", k.name)
	t.Count("sets of " + k.name)
	return func(opts ...set.Option) algebraSet {
		return setFace[X]{set.New(func(a, b X) int { return cmp(ks.dec(a), ks.dec(b)) }, opts...), ks}
	}
}

func runAlgebra(t *T) {
	cname, cmp := pickCmp(t)
	newSet := algebraSets(t, cmp)
	mk := func(keys int, like []E) (algebraSet, []E) {
		var opts []set.Option
		if t.Chance(2) {
			opts = append(opts, set.WithGoroutineSafe())
		}
		s := newSet(opts...)
		var m []E
		share := []int{0, 2, 5}[t.Intn(3)] // how often an element equals one of like
		for i, n := 0, t.Intn([]int{1, 4, 20, 60, 250}[t.Intn(5)]+1); i < n; i++ {
			e := E{t.Intn(keys) - keys/2, t.R.IntN(1 << 30)}
			if len(like) > 0 && share > 0 && !t.Chance(share) {
				e.K = like[t.Intn(len(like))].K
				if t.Chance(4) {
					e.K += 1 - 2*t.Intn(2)
				}
			}
			s.Insert(e)
			dup := false
			for _, x := range m {
				dup = dup || cmp(x, e) == 0
			}
			if !dup {
				m = append(m, e)
			}
		}
		// some histories with erasures, so that the tree is not a fresh one
		for i := 0; i < 3 && len(m) > 0 && t.Chance(2); i++ {
			j := t.Intn(len(m))
			s.Erase(m[j])
			m = eraseRange(m, j, j+1)
		}
		refStable(m, cmp)
		return s, m
	}
	keys := []int{3, 12, 60, 1 << 20}[t.Intn(4)]
	a, ma := mk(keys, nil)
	b, mb := mk(keys, ma)
	if t.Chance(8) {
		b, mb = a, ma
		t.Count("a set combined with itself")
	}
	if t.Chance(8) { // disjoint and adjacent ranges
		b = newSet()
		mb = nil
		for i := 0; i < t.Intn(10); i++ {
			e := E{keys + i, i}
			if cmp(E{keys, 0}, E{keys + i, 0}) != 0 || i == 0 {
				dup := false
				for _, x := range mb {
					dup = dup || cmp(x, e) == 0
				}
				if !dup {
					b.Insert(e)
					mb = append(mb, e)
				}
			}
		}
		refStable(mb, cmp)
	}
	in := func(m []E, e E) bool {
		for _, x := range m {
			if cmp(x, e) == 0 {
				return true
			}
		}
		return false
	}
	list := func(s algebraSet) []E { return s.list() }
	t.Op("algebra", cname, showE(ma), showE(mb))
	var inter, union, diff []E
	for _, e := range ma {
		if in(mb, e) {
			inter = append(inter, e)
		} else {
			diff = append(diff, e)
		}
	}
	union = append(union, ma...)
	for _, e := range mb {
		if !in(ma, e) {
			union = append(union, e)
		}
	}
	refStable(union, cmp)
	if len(inter) > 0 && len(diff) > 0 {
		t.Nontrivial()
	}
	for _, op := range []struct {
		name string
		f    func(algebraSet) algebraSet
		want []E
	}{{"Intersect", a.Intersect, inter}, {"Union", a.Union, union}, {"Diff", a.Diff, diff}} {
		r := op.f(b)
		got := list(r)
		if !sameElems(got, op.want) {
			t.Failf("%s (%s) of %s and %s = %s, want %s", op.name, cname, showE(ma), showE(mb), showE(got), showE(op.want))
		}
		if r.Size() != len(op.want) {
			t.Failf("%s: Size() = %d, want %d", op.name, r.Size(), len(op.want))
		}
		t.Count(op.name)
		if !sameElems(list(a), ma) || !sameElems(list(b), mb) {
			t.Failf("%s changed an operand", op.name)
		}
		// the result is a working set with a life of its own
		for i := 0; i < 4; i++ {
			e := E{t.Intn(keys) - keys/2, -1 - i}
			if t.Chance(2) && len(op.want) > 0 {
				e = op.want[t.Intn(len(op.want))]
			}
			if in(op.want, e) {
				if !r.Contains(e) || !r.found(e) {
					t.Failf("%s: the result does not contain %v", op.name, e)
				}
				r.Erase(e)
				for j, x := range op.want {
					if cmp(x, e) == 0 {
						op.want = eraseRange(append([]E(nil), op.want...), j, j+1)
						break
					}
				}
			} else {
				r.Insert(e)
				op.want = append(append([]E(nil), op.want...), e)
				refStable(op.want, cmp)
			}
			if got := list(r); !sameElems(got, op.want) || r.Size() != len(op.want) {
				t.Failf("%s: after changing the result it holds %s, want %s", op.name, showE(got), showE(op.want))
			}
			if !sameElems(list(a), ma) || !sameElems(list(b), mb) {
				t.Failf("changing the result of %s changed an operand", op.name)
			}
		}
		// and the operands go on without it; the models end here
		if t.Chance(6) {
			last := list(r)
			for i := 0; i < 4; i++ {
				e := E{t.Intn(3*keys) - keys/2, -9 - i}
				if t.Chance(2) && len(last) > 0 {
					e = last[t.Intn(len(last))]
				}
				for _, s := range []algebraSet{a, b} {
					if t.Chance(2) {
						s.Insert(e)
					} else {
						s.Erase(e)
					}
				}
				if !sameElems(list(r), last) {
					t.Failf("changing the operands changed the result of %s", op.name)
				}
			}
			t.Count("operands changed after the operation")
			return
		}
	}
}

func init() {
	rule := "random histories of insertions (single and ordered runs), erasures by key and through iterators, lookups, value updates and clears on a container of up to 3-3000 entries with few or many distinct keys under natural, reversed, abs and modulo orders (equal keys keep their identity), compared with a sorted list: contents forwards, backwards and by Traversal, bounds and lookups for keys on, next to and away from the entries; then erased from either end or at random; non-trivial with more than three entries"
	register(&Prop{ID: "C14", Rule: rule + "; the red-black properties are recomputed from the node links after each check. Suite small: all 120 insertion orders x all 120 erasure orders of 5 keys (thorough: of 6), with distinct keys and with pairs of equal keys. Suite judge: IsRbTree on trees with flipped node colours",
		Suites: []Suite{
			{Name: "histories", Quick: 30000, Thorough: 150000, Run: runOrd(kTree, kTreeNodes)},
			{Name: "small", Quick: 240, Thorough: 240, Run: runRbSmall(5), Exhaust: true},
			{Name: "small6", Thorough: 1440, Run: runRbSmall(6), Exhaust: true},
			{Name: "judge", Quick: 20000, Thorough: 100000, Run: runRbJudge},
		}, Require: []string{"lookups that hit", "lookups that miss", "insertions of an equal key", "erasures through an iterator", "clears"},
		Assume: []string{"the comparator is a weak order; nodes passed to Delete are nodes of the tree"}})
	register(&Prop{ID: "C15", Rule: rule,
		Suites:  []Suite{{Name: "histories", Quick: 36000, Thorough: 200000, Run: runOrd(kMap, kMultiMap)}},
		Require: []string{"lookups that hit", "lookups that miss", "insertions of an equal key", "erasures through an iterator", "clears", "histories of map", "histories of multimap"}})
	register(&Prop{ID: "C16", Rule: rule,
		Suites:  []Suite{{Name: "histories", Quick: 36000, Thorough: 200000, Run: runOrd(kSet, kMultiSet)}},
		Require: []string{"lookups that hit", "lookups that miss", "insertions of an equal key", "clears", "histories of set", "histories of multiset"}})
	register(&Prop{ID: "C17", Rule: "random pairs of sets (empty to 250 elements, overlapping in a few to most elements, disjoint, the same set) under 5 kinds of order, after insertions and erasures; results compared with lists including which of two equal elements is taken; results and operands are then changed and must not affect each other; non-trivial when both the intersection and the difference are non-empty",
		Suites:  []Suite{{Name: "pairs", Quick: 400000, Thorough: 3000000, Run: runAlgebra}},
		Require: []string{"Intersect", "Union", "Diff", "a set combined with itself"}})
	register(&Prop{ID: "C18", Rule: "histories as for the ordered containers with up to 6 iterators or nodes held while other entries (preferably their neighbours) are inserted and erased; after every operation each must still be on its entry, with the right successor and predecessor, and act on it; non-trivial when an iterator was held across an operation",
		Suites: []Suite{{Name: "histories", Quick: 72000, Thorough: 500000, Run: runStability}},
		Require: []string{"held iterators checked", "neighbours of held entries erased", "erasures through a held iterator", "values set through a held iterator",
			"histories of rbtree", "histories of map", "histories of multimap", "histories of set", "histories of multiset"}})
}
