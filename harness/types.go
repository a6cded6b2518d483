package main

import (
	"strconv"
	"strings"

	"github.com/liyue201/gostl/algorithm"
	"github.com/liyue201/gostl/algorithm/sort"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/heap"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/utils/comparator"
	"github.com/liyue201/gostl/utils/iterator"
	"github.com/liyue201/gostl/utils/visitor"
)

// The containers and algorithms are generic; what they do must not depend on
// the type they are used with. A codec writes the harness's own values S as
// values of another type X and reads them back, so that one model judges a
// container of any type. Values are numbered as they come; the zero value of
// S is the zero value of X.

type codec[S comparable, X any] struct {
	name string
	enc  func(S) X
	dec  func(X) S
	live func(S) bool // of a type with few values: is this one still somewhere?
}

// kindOf describes a type with (nearly) unlimited values: mk makes the i-th
// one, i > 0, and un says which one a non-zero value is.
type kindOf[X any] struct {
	name  string
	limit int
	mk    func(i int) X
	un    func(x X) int
}

func newCodec[S comparable, X any](k kindOf[X]) *codec[S, X] {
	var zero S
	nums := map[S]int{zero: 0}
	table := []S{zero}
	cache := make([]X, 1)
	var free []int
	c := &codec[S, X]{name: k.name}
	c.enc = func(s S) X {
		i, ok := nums[s]
		if ok {
			return cache[i]
		}
		if i = len(table); k.limit == 0 || i < k.limit {
			table = append(table, s)
			cache = append(cache, k.mk(i))
		} else {
			if len(free) == 0 { // use again the numbers of values that are gone
				for j := 1; j < len(table); j++ {
					if !c.live(table[j]) {
						free = append(free, j)
						delete(nums, table[j])
					}
				}
			}
			i = free[len(free)-1]
			free = free[:len(free)-1]
			table[i] = s
		}
		nums[s] = i
		return cache[i]
	}
	c.dec = func(x X) S { return table[k.un(x)] }
	return c
}

func plain[S comparable]() *codec[S, S] {
	return &codec[S, S]{enc: func(s S) S { return s }, dec: func(s S) S { return s }}
}

type aggregate struct {
	name string
	num  int
	rest [3]uint16
	flag bool
}

type named string

var (
	kString = kindOf[string]{"string", 0, func(i int) string {
		s := strconv.Itoa(i)
		if i%3 == 0 { // some of them long, with a common beginning
			return "a common prefix that is long enough " + s
		}
		return s
	}, func(x string) int {
		if x == "" {
			return 0
		}
		if x[0] == 'a' {
			x = x[len("a common prefix that is long enough "):]
		}
		i, err := strconv.Atoi(x)
		if err != nil {
			panic("harness: a string that was never put in: " + x)
		}
		return i
	}}
	kNamed  = kindOf[named]{"named string", 0, func(i int) named { return named(strconv.Itoa(i)) }, func(x named) int { i, _ := strconv.Atoi(string(x)); return i }}
	kFloat  = kindOf[float64]{"float64", 0, func(i int) float64 { return float64(i) * -0.5 }, func(x float64) int { return int(x * -2) }}
	kInt    = kindOf[int]{"int", 0, func(i int) int { return i * -3 }, func(x int) int { return x / -3 }}
	kInt64  = kindOf[int64]{"int64", 0, func(i int) int64 { return int64(-i) }, func(x int64) int { return int(-x) }}
	kUint   = kindOf[uint]{"uint", 0, func(i int) uint { return uint(-i) }, func(x uint) int { return -int(x) }}
	kByte   = kindOf[uint8]{"uint8", 256, func(i int) uint8 { return uint8(i * 7) }, func(x uint8) int { return int(uint8(x * 183)) }} // 7*183 = 1 mod 256
	kPtr    = kindOf[*int]{"*int", 0, func(i int) *int { return &i }, func(x *int) int { return deref(x) }}
	kStruct = kindOf[aggregate]{"struct", 0, func(i int) aggregate { return aggregate{strconv.Itoa(i), i, [3]uint16{uint16(i), 1, 2}, true} }, func(x aggregate) int { return x.num }}
	kArray  = kindOf[[3]int]{"[3]int", 0, func(i int) [3]int { return [3]int{-i, i, 7} }, func(x [3]int) int { return x[1] }}
	kSlice  = kindOf[[]int]{"[]int", 0, func(i int) []int { return []int{1, i, 7} }, func(x []int) int {
		if x == nil {
			return 0
		}
		return x[1]
	}}
	kAny = kindOf[any]{"any", 0, func(i int) any {
		switch i % 4 {
		case 0:
			return i
		case 1:
			return strconv.Itoa(i)
		case 2:
			return float64(i)
		}
		return &i
	}, func(x any) int {
		switch v := x.(type) {
		case nil:
			return 0
		case int:
			return v
		case string:
			i, _ := strconv.Atoi(v)
			return i
		case float64:
			return int(v)
		case *int:
			return *v
		}
		panic("harness: a value that was never put in")
	}}
)

func deref(p *int) int {
	if p == nil {
		return 0
	}
	return *p
}

// makeOrd makes one of the ordered containers: two times out of three of
// E's, and otherwise with other types of keys and values.
func makeOrd(t *T, kind int, cmp comparator.Comparator[E]) *ordCont {
	if !t.Chance(3) {
		return makeOrdE(t, kind, cmp)
	}
	return makeOrdTyped(t, kind, cmp, t.Intn(10))
}

const nOrdTypes = 10

func makeOrdTyped(t *T, kind int, cmp comparator.Comparator[E], which int) *ordCont {
	switch which {
	case 0:
		return ordOf(t, kind, cmp, kString, kInt)
	case 1:
		return ordOf(t, kind, cmp, kInt, kString)
	case 2:
		return ordOf(t, kind, cmp, kFloat, kPtr)
	case 3:
		return ordOf(t, kind, cmp, kPtr, kFloat)
	case 4:
		return ordOf(t, kind, cmp, kStruct, kAny)
	case 5:
		return ordOf(t, kind, cmp, kAny, kStruct)
	case 6:
		return ordOf(t, kind, cmp, kNamed, kSlice)
	case 7:
		return ordOf(t, kind, cmp, kSlice, kUint)
	case 8:
		return ordOf(t, kind, cmp, kArray, kInt64)
	}
	return ordOf(t, kind, cmp, kInt64, kString)
}

func ordOf[X, V any](t *T, kind int, cmp comparator.Comparator[E], kx kindOf[X], kv kindOf[V]) *ordCont {
	ks, vs := newCodec[E](kx), newCodec[int](kv)
	dec := ks.dec
	c := makeOrdOf(t, kind, func(a, b X) int { return cmp(dec(a), dec(b)) }, ks, vs)
	c.str = nil
	c.types = kx.name + " to " + kv.name
	t.Op("types", c.types)
	t.Count("containers of types other than the usual one")
	return c
}

// few gives the monitor a container whose keys and values are single bytes.
func (o *ordMon) few(kind int) {
	ks, vs := newCodec[E](kByte), newCodec[int](kByte)
	ks.live = func(k E) bool {
		for _, e := range o.m {
			if e.k == k {
				return true
			}
		}
		return false
	}
	vs.live = func(v int) bool {
		for _, e := range o.m {
			if e.v == v {
				return true
			}
		}
		return false
	}
	o.c = makeOrdOf(o.t, kind, func(a, b uint8) int { return o.cmp(ks.dec(a), ks.dec(b)) }, ks, vs)
	o.c.str = nil
	o.t.Op("types", "uint8 to uint8")
	o.t.Count("containers of types other than the usual one")
}

// ---- algorithms on ranges of other types ----

// xIter shows an iterator over X's as an iterator over E's. It is only a
// face: the lib functions below take it off again before they call the
// library.
type xIter[X any] struct {
	it iterator.ConstIterator[X]
	ks *codec[E, X]
}

func (i *xIter[X]) IsValid() bool { return i.it.IsValid() }
func (i *xIter[X]) Value() E      { return i.ks.dec(i.it.Value()) }
func (i *xIter[X]) Key() int      { return i.it.(interface{ Key() int }).Key() }
func (i *xIter[X]) SetValue(v E) {
	if s, ok := i.it.(interface{ SetValue(X) error }); ok {
		if err := s.SetValue(i.ks.enc(v)); err != nil {
			panic(violation{"SetValue: " + err.Error()})
		}
		return
	}
	i.it.(interface{ SetValue(X) }).SetValue(i.ks.enc(v))
}

func (i *xIter[X]) Next() iterator.ConstIterator[E] {
	if r := i.it.Next(); r != i.it {
		return &xIter[X]{r, i.ks}
	}
	return i
}

func (i *xIter[X]) Prev() iterator.ConstBidIterator[E] {
	if r := i.it.(iterator.ConstBidIterator[X]).Prev(); iterator.ConstIterator[X](r) != i.it {
		return &xIter[X]{r, i.ks}
	}
	return i
}
func (i *xIter[X]) Clone() iterator.ConstIterator[E]       { return &xIter[X]{i.it.Clone(), i.ks} }
func (i *xIter[X]) Equal(o iterator.ConstIterator[E]) bool { return i.it.Equal(o.(*xIter[X]).it) }
func (i *xIter[X]) ra() iterator.RandomAccessIterator[X] {
	return i.it.(iterator.RandomAccessIterator[X])
}
func (i *xIter[X]) IteratorAt(p int) ra { return &xIter[X]{i.ra().IteratorAt(p), i.ks} }
func (i *xIter[X]) Position() int       { return i.ra().Position() }

func asRA[X any](ks *codec[E, X], i iterator.RandomAccessIterator[X]) ra {
	if x, ok := i.(ra); ok {
		return x
	}
	return &xIter[X]{i, ks}
}

func asConst[X any](ks *codec[E, X], i iterator.ConstIterator[X]) iterator.ConstIterator[E] {
	if x, ok := i.(iterator.ConstIterator[E]); ok {
		return x
	}
	return &xIter[X]{i, ks}
}

type (
	cmpE  = comparator.Comparator[E]
	citE  = iterator.ConstIterator[E]
	predE = func(citE) bool
	// faced is what an iterator of another type does for the lib functions.
	faced interface {
		sort(last ra, cmp cmpE, how string, n int) bool
		search(last ra, v E, cmp cmpE, how string) (ra, bool)
		scan(last citE, v E, cmp cmpE, how string) (citE, int)
		test(last citE, p predE, how string) (citE, int)
		swap(o citE)
		reverse(last citE)
	}
)

func (i *xIter[X]) cmp(cmp cmpE) comparator.Comparator[X] {
	dec := i.ks.dec
	return func(a, b X) int { return cmp(dec(a), dec(b)) }
}

func (i *xIter[X]) sort(last ra, cmp cmpE, how string, n int) bool {
	f, l, c := i.ra(), last.(*xIter[X]).ra(), i.cmp(cmp)
	switch how {
	case "Sort":
		sort.Sort(f, l, c)
	case "Stable":
		sort.Stable(f, l, c)
	case "NthElement":
		sort.NthElement(f, l, n, c)
	case "NextPermutation":
		return sort.NextPermutation(f, l, c)
	default:
		panic(how)
	}
	return false
}

func (i *xIter[X]) search(last ra, v E, cmp cmpE, how string) (ra, bool) {
	f, l, c, x := i.ra(), last.(*xIter[X]).ra(), i.cmp(cmp), i.ks.enc(v)
	switch how {
	case "BinarySearch":
		return nil, sort.BinarySearch(f, l, x, c)
	case "LowerBound":
		return &xIter[X]{sort.LowerBound(f, l, x, c), i.ks}, true
	case "UpperBound":
		return &xIter[X]{sort.UpperBound(f, l, x, c), i.ks}, true
	}
	panic(how)
}

func (i *xIter[X]) scan(last citE, v E, cmp cmpE, how string) (citE, int) {
	f, l, c := i.it, last.(*xIter[X]).it, i.cmp(cmp)
	switch how {
	case "Count":
		return nil, algorithm.Count(f, l, i.ks.enc(v), c)
	case "Find":
		return &xIter[X]{algorithm.Find(f, l, i.ks.enc(v), c), i.ks}, 0
	case "MaxElement":
		return &xIter[X]{algorithm.MaxElement(f, l, c), i.ks}, 0
	case "MinElement":
		return &xIter[X]{algorithm.MinElement(f, l, c), i.ks}, 0
	}
	panic(how)
}

func (i *xIter[X]) test(last citE, p predE, how string) (citE, int) {
	f, l := i.it, last.(*xIter[X]).it
	q := func(x iterator.ConstIterator[X]) bool { return p(&xIter[X]{x, i.ks}) }
	num := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	switch how {
	case "CountIf":
		return nil, algorithm.CountIf(f, l, q)
	case "FindIf":
		return &xIter[X]{algorithm.FindIf(f, l, q), i.ks}, 0
	case "AnyOf":
		return nil, num(algorithm.AnyOf(f, l, q))
	case "AllOf":
		return nil, num(algorithm.AllOf(f, l, q))
	case "NoneOf":
		return nil, num(algorithm.NoneOf(f, l, q))
	}
	panic(how)
}

func (i *xIter[X]) swap(o citE) {
	algorithm.Swap(i.it.(iterator.Iterator[X]), o.(*xIter[X]).it.(iterator.Iterator[X]))
}

func (i *xIter[X]) reverse(last citE) {
	algorithm.Reverse(i.it.(iterator.BidIterator[X]), last.(*xIter[X]).it.(iterator.BidIterator[X]))
}

func libSort(first, last ra, cmp cmpE) {
	if x, ok := first.(faced); ok {
		x.sort(last, cmp, "Sort", 0)
		return
	}
	sort.Sort(first, last, cmp)
}

func libStable(first, last ra, cmp cmpE) {
	if x, ok := first.(faced); ok {
		x.sort(last, cmp, "Stable", 0)
		return
	}
	sort.Stable(first, last, cmp)
}

func libNthElement(first, last ra, n int, cmp cmpE) {
	if x, ok := first.(faced); ok {
		x.sort(last, cmp, "NthElement", n)
		return
	}
	sort.NthElement(first, last, n, cmp)
}

func libNextPermutation(first, last ra, cmp cmpE) bool {
	if x, ok := first.(faced); ok {
		return x.sort(last, cmp, "NextPermutation", 0)
	}
	return sort.NextPermutation(first, last, cmp)
}

func libBinarySearch(first, last ra, v E, cmp cmpE) bool {
	if x, ok := first.(faced); ok {
		_, g := x.search(last, v, cmp, "BinarySearch")
		return g
	}
	return sort.BinarySearch(first, last, v, cmp)
}

func libLowerBound(first, last ra, v E, cmp cmpE) ra {
	if x, ok := first.(faced); ok {
		g, _ := x.search(last, v, cmp, "LowerBound")
		return g
	}
	return sort.LowerBound(first, last, v, cmp)
}

func libUpperBound(first, last ra, v E, cmp cmpE) ra {
	if x, ok := first.(faced); ok {
		g, _ := x.search(last, v, cmp, "UpperBound")
		return g
	}
	return sort.UpperBound(first, last, v, cmp)
}

func libCount(first, last citE, v E, cmp cmpE) int {
	if x, ok := first.(faced); ok {
		_, n := x.scan(last, v, cmp, "Count")
		return n
	}
	return algorithm.Count(first, last, v, cmp)
}

func libFind(first, last citE, v E, cmp cmpE) citE {
	if x, ok := first.(faced); ok {
		g, _ := x.scan(last, v, cmp, "Find")
		return g
	}
	return algorithm.Find(first, last, v, cmp)
}

func libMaxElement(first, last citE, cmp cmpE) citE {
	if x, ok := first.(faced); ok {
		g, _ := x.scan(last, E{}, cmp, "MaxElement")
		return g
	}
	return algorithm.MaxElement(first, last, cmp)
}

func libMinElement(first, last citE, cmp cmpE) citE {
	if x, ok := first.(faced); ok {
		g, _ := x.scan(last, E{}, cmp, "MinElement")
		return g
	}
	return algorithm.MinElement(first, last, cmp)
}

func libCountIf(first, last citE, p predE) int {
	if x, ok := first.(faced); ok {
		_, n := x.test(last, p, "CountIf")
		return n
	}
	return algorithm.CountIf(first, last, p)
}

func libFindIf(first, last citE, p predE) citE {
	if x, ok := first.(faced); ok {
		g, _ := x.test(last, p, "FindIf")
		return g
	}
	return algorithm.FindIf(first, last, p)
}

func libAnyOf(first, last citE, p predE) bool {
	if x, ok := first.(faced); ok {
		_, n := x.test(last, p, "AnyOf")
		return n == 1
	}
	return algorithm.AnyOf(first, last, p)
}

func libAllOf(first, last citE, p predE) bool {
	if x, ok := first.(faced); ok {
		_, n := x.test(last, p, "AllOf")
		return n == 1
	}
	return algorithm.AllOf(first, last, p)
}

func libNoneOf(first, last citE, p predE) bool {
	if x, ok := first.(faced); ok {
		_, n := x.test(last, p, "NoneOf")
		return n == 1
	}
	return algorithm.NoneOf(first, last, p)
}

func libSwap(a, b iterator.Iterator[E]) {
	if x, ok := a.(faced); ok {
		x.swap(b)
		return
	}
	algorithm.Swap(a, b)
}

func libReverse(first, last iterator.BidIterator[E]) {
	if x, ok := first.(faced); ok {
		x.reverse(last)
		return
	}
	algorithm.Reverse(first, last)
}

const nTypes = 12

func typedSeq(t *T, kind int, es []E, which int) *seqCont {
	switch which {
	case 0:
		return seqAs(t, kind, es, kString)
	case 1:
		return seqAs(t, kind, es, kNamed)
	case 2:
		return seqAs(t, kind, es, kFloat)
	case 3:
		return seqAs(t, kind, es, kInt)
	case 4:
		return seqAs(t, kind, es, kInt64)
	case 5:
		return seqAs(t, kind, es, kUint)
	case 6:
		return seqAs(t, kind, es, kPtr)
	case 7:
		return seqAs(t, kind, es, kStruct)
	case 8:
		return seqAs(t, kind, es, kArray)
	case 9:
		return seqAs(t, kind, es, kSlice)
	case 10:
		return seqAs(t, kind, es, kAny)
	}
	if len(es) > 200 {
		return seqAs(t, kind, es, kString)
	}
	return seqAs(t, kind, es, kByte)
}

func seqAs[X any](t *T, kind int, es []E, k kindOf[X]) *seqCont {
	t.Op("type", k.name)
	t.Count("ranges of " + k.name)
	return seqOf(t, kind, es, newCodec[E](k))
}

func typedFwd(t *T, kind int, es []E, which int) (*fwdCont, []E) {
	switch which {
	case 0:
		return fwdAs(t, kind, es, kString)
	case 1:
		return fwdAs(t, kind, es, kNamed)
	case 2:
		return fwdAs(t, kind, es, kFloat)
	case 3:
		return fwdAs(t, kind, es, kInt)
	case 4:
		return fwdAs(t, kind, es, kInt64)
	case 5:
		return fwdAs(t, kind, es, kUint)
	case 6:
		return fwdAs(t, kind, es, kPtr)
	case 7:
		return fwdAs(t, kind, es, kStruct)
	case 8:
		return fwdAs(t, kind, es, kArray)
	case 9:
		return fwdAs(t, kind, es, kSlice)
	case 10:
		return fwdAs(t, kind, es, kAny)
	}
	if len(es) > 200 {
		return fwdAs(t, kind, es, kString)
	}
	return fwdAs(t, kind, es, kByte)
}

func fwdAs[X any](t *T, kind int, es []E, k kindOf[X]) (*fwdCont, []E) {
	t.Op("type", k.name)
	t.Count("ranges of " + k.name)
	return fwdOf(t, kind, es, newCodec[E](k))
}

// ---- the other generic containers ----

type pqE interface {
	Push(E)
	Pop() E
	Top() E
	Size() int
	Empty() bool
	Clear()
}

type pqX[X any] struct {
	*priorityqueue.PriorityQueue[X]
	ks *codec[E, X]
}

func (q pqX[X]) Push(e E) { q.PriorityQueue.Push(q.ks.enc(e)) }
func (q pqX[X]) Pop() E   { return q.ks.dec(q.PriorityQueue.Pop()) }
func (q pqX[X]) Top() E   { return q.ks.dec(q.PriorityQueue.Top()) }

func pqAs[X any](t *T, cmp cmpE, opts []priorityqueue.Option, k kindOf[X], live func(E) bool) pqE {
	t.Op("type", k.name)
	t.Count("queues of " + k.name)
	ks := newCodec[E](k)
	ks.live = live
	return pqX[X]{priorityqueue.New[X](func(a, b X) int { return cmp(ks.dec(a), ks.dec(b)) }, opts...), ks}
}

// makePQ makes a priority queue of E's or, one time out of four, of another
// type; live says whether an element is still in the queue, small that there
// are never more than 200 of them.
func makePQ(t *T, cmp cmpE, opts []priorityqueue.Option, small bool, live func(E) bool) pqE {
	if !t.Chance(4) {
		return priorityqueue.New[E](cmp, opts...)
	}
	switch t.Intn(nTypes) {
	case 0:
		return pqAs(t, cmp, opts, kString, nil)
	case 1:
		return pqAs(t, cmp, opts, kNamed, nil)
	case 2:
		return pqAs(t, cmp, opts, kFloat, nil)
	case 3:
		return pqAs(t, cmp, opts, kInt, nil)
	case 4:
		return pqAs(t, cmp, opts, kInt64, nil)
	case 5:
		return pqAs(t, cmp, opts, kUint, nil)
	case 6:
		return pqAs(t, cmp, opts, kPtr, nil)
	case 7:
		return pqAs(t, cmp, opts, kStruct, nil)
	case 8:
		return pqAs(t, cmp, opts, kArray, nil)
	case 9:
		return pqAs(t, cmp, opts, kSlice, nil)
	case 10:
		return pqAs(t, cmp, opts, kAny, nil)
	}
	if !small {
		return pqAs(t, cmp, opts, kString, nil)
	}
	return pqAs(t, cmp, opts, kByte, live)
}

// heapE is the heap package on a heap of E's; the elements that pass through
// its functions may be of another type.
type heapE interface {
	init()
	push(E)
	pop() E
	remove(i int) E
	fix(i int)
}

type heapX[X any] struct {
	h  *monHeap
	ks *codec[E, X]
}

func (x heapX[X]) Len() int           { return x.h.Len() }
func (x heapX[X]) Less(i, j int) bool { return x.h.Less(i, j) }
func (x heapX[X]) Swap(i, j int)      { x.h.Swap(i, j) }
func (x heapX[X]) Push(e X)           { x.h.Push(x.ks.dec(e)) }
func (x heapX[X]) Pop() X             { return x.ks.enc(x.h.Pop()) }
func (x heapX[X]) init()              { heap.Init[X](x) }
func (x heapX[X]) push(e E)           { heap.Push[X](x, x.ks.enc(e)) }
func (x heapX[X]) pop() E             { return x.ks.dec(heap.Pop[X](x)) }
func (x heapX[X]) remove(i int) E     { return x.ks.dec(heap.Remove[X](x, i)) }
func (x heapX[X]) fix(i int)          { heap.Fix[X](x, i) }

type plainHeap struct{ h *monHeap }

func (x plainHeap) init()          { heap.Init[E](x.h) }
func (x plainHeap) push(e E)       { heap.Push[E](x.h, e) }
func (x plainHeap) pop() E         { return heap.Pop[E](x.h) }
func (x plainHeap) remove(i int) E { return heap.Remove[E](x.h, i) }
func (x plainHeap) fix(i int)      { heap.Fix[E](x.h, i) }

func heapAs[X any](t *T, h *monHeap, k kindOf[X]) heapE {
	t.Op("type", k.name)
	t.Count("heaps of " + k.name)
	ks := newCodec[E](k)
	ks.live = func(e E) bool {
		for _, x := range h.es {
			if x == e {
				return true
			}
		}
		return false
	}
	return heapX[X]{h, ks}
}

func makeHeap(t *T, h *monHeap, small bool) heapE {
	if !t.Chance(3) {
		return plainHeap{h}
	}
	switch t.Intn(nTypes) {
	case 0:
		return heapAs(t, h, kString)
	case 1:
		return heapAs(t, h, kNamed)
	case 2:
		return heapAs(t, h, kFloat)
	case 3:
		return heapAs(t, h, kInt)
	case 4:
		return heapAs(t, h, kInt64)
	case 5:
		return heapAs(t, h, kUint)
	case 6:
		return heapAs(t, h, kPtr)
	case 7:
		return heapAs(t, h, kStruct)
	case 8:
		return heapAs(t, h, kArray)
	case 9:
		return heapAs(t, h, kSlice)
	case 10:
		return heapAs(t, h, kAny)
	}
	if !small {
		return heapAs(t, h, kString)
	}
	return heapAs(t, h, kByte)
}

type skipE interface {
	Insert(E, int)
	Get(E) (int, error)
	Remove(E) bool
	Len() int
	Keys() []E
	Traversal(visitor.KvVisitor[E, int])
}

type skipX[X, V any] struct {
	*skiplist.Skiplist[X, V]
	ks *codec[E, X]
	vs *codec[int, V]
}

func (s skipX[X, V]) Insert(k E, v int) { s.Skiplist.Insert(s.ks.enc(k), s.vs.enc(v)) }
func (s skipX[X, V]) Get(k E) (int, error) {
	v, err := s.Skiplist.Get(s.ks.enc(k))
	return s.vs.dec(v), err
}
func (s skipX[X, V]) Remove(k E) bool { return s.Skiplist.Remove(s.ks.enc(k)) }
func (s skipX[X, V]) Keys() (out []E) {
	for _, k := range s.Skiplist.Keys() {
		out = append(out, s.ks.dec(k))
	}
	return
}
func (s skipX[X, V]) Traversal(f visitor.KvVisitor[E, int]) {
	s.Skiplist.Traversal(func(k X, v V) bool { return f(s.ks.dec(k), s.vs.dec(v)) })
}

func skipAs[X, V any](t *T, cmp cmpE, opts []skiplist.Option, k kindOf[X], v kindOf[V], lk func(E) bool, lv func(int) bool) skipE {
	t.Op("types", k.name, v.name)
	t.Count("skip lists of " + k.name + " to " + v.name)
	ks, vs := newCodec[E](k), newCodec[int](v)
	ks.live, vs.live = lk, lv
	return skipX[X, V]{skiplist.New[X, V](func(a, b X) int { return cmp(ks.dec(a), ks.dec(b)) }, opts...), ks, vs}
}

func makeSkip(t *T, cmp cmpE, opts []skiplist.Option, small bool, lk func(E) bool, lv func(int) bool) skipE {
	if !t.Chance(3) {
		return skiplist.New[E, int](cmp, opts...)
	}
	switch t.Intn(nTypes) {
	case 0:
		return skipAs(t, cmp, opts, kString, kInt, nil, nil)
	case 1:
		return skipAs(t, cmp, opts, kNamed, kInt64, nil, nil)
	case 2:
		return skipAs(t, cmp, opts, kFloat, kUint, nil, nil)
	case 3:
		return skipAs(t, cmp, opts, kInt, kPtr, nil, nil)
	case 4:
		return skipAs(t, cmp, opts, kInt64, kStruct, nil, nil)
	case 5:
		return skipAs(t, cmp, opts, kUint, kArray, nil, nil)
	case 6:
		return skipAs(t, cmp, opts, kPtr, kSlice, nil, nil)
	case 7:
		return skipAs(t, cmp, opts, kStruct, kAny, nil, nil)
	case 8:
		return skipAs(t, cmp, opts, kArray, kString, nil, nil)
	case 9:
		return skipAs(t, cmp, opts, kSlice, kNamed, nil, nil)
	case 10:
		return skipAs(t, cmp, opts, kAny, kFloat, nil, nil)
	}
	if !small {
		return skipAs(t, cmp, opts, kString, kString, nil, nil)
	}
	return skipAs(t, cmp, opts, kByte, kByte, lk, lv)
}

type hamtE interface {
	Insert(hamt.Key, int)
	Get(hamt.Key) (int, error)
	Erase(hamt.Key) bool
	Keys() []hamt.Key
	StringKeys() []string
	Traversal(visitor.KvVisitor[hamt.Key, int])
}

type hamtX[V any] struct {
	*hamt.Hamt[V]
	vs *codec[int, V]
}

func (h hamtX[V]) Insert(k hamt.Key, v int) { h.Hamt.Insert(k, h.vs.enc(v)) }
func (h hamtX[V]) Get(k hamt.Key) (int, error) {
	v, err := h.Hamt.Get(k)
	return h.vs.dec(v), err
}
func (h hamtX[V]) Traversal(f visitor.KvVisitor[hamt.Key, int]) {
	h.Hamt.Traversal(func(k hamt.Key, v V) bool { return f(k, h.vs.dec(v)) })
}

func hamtAs[V any](t *T, opts []hamt.Option, v kindOf[V], live func(int) bool) hamtE {
	t.Op("type", v.name)
	t.Count("maps to " + v.name)
	vs := newCodec[int](v)
	vs.live = live
	return hamtX[V]{hamt.New[V](opts...), vs}
}

func makeHamt(t *T, opts []hamt.Option, small bool, live func(int) bool) hamtE {
	if !t.Chance(3) {
		return hamt.New[int](opts...)
	}
	switch t.Intn(nTypes) {
	case 0:
		return hamtAs(t, opts, kString, nil)
	case 1:
		return hamtAs(t, opts, kNamed, nil)
	case 2:
		return hamtAs(t, opts, kFloat, nil)
	case 3:
		return hamtAs(t, opts, kInt, nil)
	case 4:
		return hamtAs(t, opts, kInt64, nil)
	case 5:
		return hamtAs(t, opts, kUint, nil)
	case 6:
		return hamtAs(t, opts, kPtr, nil)
	case 7:
		return hamtAs(t, opts, kStruct, nil)
	case 8:
		return hamtAs(t, opts, kArray, nil)
	case 9:
		return hamtAs(t, opts, kSlice, nil)
	case 10:
		return hamtAs(t, opts, kAny, nil)
	}
	if !small {
		return hamtAs(t, opts, kString, nil)
	}
	return hamtAs(t, opts, kByte, live)
}

func addTypes() {
	const other = ", of a type other than the usual one in one case out of three or four (strings, named strings, floats, signed and unsigned integers, bytes, pointers, structs, arrays, slices, interfaces)"
	for _, x := range []struct {
		ids, what string
		req       []string
	}{
		{"C02 C03 C04 C05 C06", "; the ranges are", []string{"ranges of string", "ranges of float64", "ranges of *int", "ranges of struct", "ranges of uint8", "ranges of any"}},
		{"C13", "; the queues and heaps are", []string{"queues of string", "queues of uint8", "heaps of float64", "heaps of struct"}},
		{"C14 C15 C16 C18", "; keys and values are", []string{"containers of types other than the usual one"}},
		{"C17", "; the elements are", []string{"sets of string", "sets of float64", "sets of *int", "sets of []int"}},
		{"C29", "; the elements are", []string{"iterators over string", "iterators over float64", "iterators over uint8", "iterators over *int"}},
		{"C19", "; the values are", []string{"maps to string", "maps to uint8", "maps to *int"}},
		{"C20", "; keys and values are", []string{"skip lists of string to int", "skip lists of uint8 to uint8"}},
	} {
		for _, id := range strings.Fields(x.ids) {
			p := findProp(id)
			p.Rule += x.what + other
			p.Require = append(p.Require, x.req...)
		}
	}
}
