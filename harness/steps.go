package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/coverage"
	"sort"
	"strconv"
	"strings"

	"github.com/liyue201/gostl/algorithm"
	algosort "github.com/liyue201/gostl/algorithm/sort"
	"github.com/liyue201/gostl/ds/array"
	"github.com/liyue201/gostl/ds/bitmap"
	bloom "github.com/liyue201/gostl/ds/bloomfilter"
	"github.com/liyue201/gostl/ds/deque"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/heap"
	"github.com/liyue201/gostl/ds/ketama"
	"github.com/liyue201/gostl/ds/list/bidlist"
	"github.com/liyue201/gostl/ds/list/simplelist"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/ds/slice"
	"github.com/liyue201/gostl/ds/stack"
	"github.com/liyue201/gostl/ds/vector"
	"github.com/liyue201/gostl/utils/iterator"
)

// ---- C35 the cost of operations, in executed steps and allocated bytes ----
//
// The worker is built with -cover over the library, so every basic block of
// the library has a counter. The counters are read inside the process before and
// after a stretch of operations; their difference is the number of steps the
// library executed. The same stretch on a container of a few hundred elements
// gives the cost that the one with many thousands is held against.

// stepCounter reads the sum of the library's block counters.
type stepCounter struct {
	buf  bytes.Buffer
	own  uint64 // package index of this program
	init bool
}

var steps stepCounter

// spin executes about n blocks of this program.
//
//go:noinline
func spin(n int) (x int) {
	for i := 0; i < n; i++ {
		if i&1 == 0 {
			x += i
		} else {
			x -= i
		}
	}
	return
}

// perPackage sums the counters by package.
func (s *stepCounter) perPackage() map[uint64]uint64 {
	s.buf.Reset()
	if err := coverage.WriteCounters(&s.buf); err != nil {
		panic("no block counters: " + err.Error())
	}
	sum := map[uint64]uint64{}
	s.each(func(pkg, c uint64) { sum[pkg] += c })
	return sum
}

func (s *stepCounter) each(f func(pkg, count uint64)) {
	d := s.buf.Bytes()
	if len(d) < 48 || string(d[:4]) != "\x00cwm" {
		panic("unknown counter format")
	}
	funcs := binary.LittleEndian.Uint64(d[32:])
	p := 48 + int(binary.LittleEndian.Uint32(d[40:])) + int(binary.LittleEndian.Uint32(d[44:]))
	p = (p + 3) &^ 3
	next := func() uint64 {
		x, n := binary.Uvarint(d[p:])
		if n <= 0 {
			panic("truncated counters")
		}
		p += n
		return x
	}
	for ; funcs > 0; funcs-- {
		n, pkg := next(), next()
		next()
		for ; n > 0; n-- {
			f(pkg, next())
		}
	}
}

// setup finds out which package index is this program's.
func (s *stepCounter) setup() {
	if s.init {
		return
	}
	a := s.perPackage()
	spin(50_000_000)
	b := s.perPackage()
	var most uint64
	for k := range b {
		if d := b[k] - a[k]; d > most {
			most, s.own = d, k
		}
	}
	if most < 50_000_000 {
		panic("the block counters do not count")
	}
	v := bidlist.New[int]()
	x := s.read()
	for i := 0; i < 1000; i++ {
		v.PushBack(i)
	}
	if y := s.read(); y-x < 1000 {
		panic("the block counters do not count the library's steps")
	}
	s.init = true
}

func (s *stepCounter) read() (sum uint64) {
	s.buf.Reset()
	if err := coverage.WriteCounters(&s.buf); err != nil {
		panic(err)
	}
	s.each(func(pkg, c uint64) {
		if pkg != s.own {
			sum += c
		}
	})
	return
}

// cost is what a stretch of operations took, per operation.
type cost struct{ steps, bytes, units float64 }

// measure runs one stretch.
func measure(run func() int) cost {
	steps.setup()
	coverage.ClearCounters()
	var m0, m1 runtime.MemStats
	x := steps.read()
	runtime.ReadMemStats(&m0)
	units := run()
	runtime.ReadMemStats(&m1)
	y := steps.read()
	u := math.Max(1, float64(units))
	return cost{float64(y-x) / u, float64(m1.TotalAlloc-m0.TotalAlloc) / u, u}
}

type growth struct {
	name string
	f    func(n float64) float64
}

var (
	gConst = growth{"constant", func(float64) float64 { return 1 }}
	gLog   = growth{"logarithmic", func(n float64) float64 { return math.Log2(n + 2) }}
)

// A stepJob is a stretch of operations whose cost per operation grows as said:
// it may be factor times the calibrated one, and slack.
// make prepares a container of n elements in the given shape (0 .. shapes-1)
// and returns the stretch, which says how many operations it was. anyBytes:
// what it allocates is not judged.
type stepJob struct {
	name     string
	grow     growth
	slack    float64
	shapes   []string
	anyBytes bool
	factor   float64
	make     func(r *rand.Rand, n, shape int) func() int
}

var stepJobs []*stepJob

func job(name string, g growth, slack float64, shapes []string, mk func(r *rand.Rand, n, shape int) func() int) {
	stepJobs = append(stepJobs, &stepJob{name: name, grow: g, slack: slack, shapes: shapes, factor: 2, make: mk})
}

// exactly marks the last job as one whose cost is the same at every size, so
// that even a logarithmic growth shows.
func exactly() { j := stepJobs[len(stepJobs)-1]; j.factor, j.slack = 1.25, 2 }

// ---- sequences used at their ends ----

type endsCont struct {
	pushB, pushF func(int)
	popB, popF   func() int
	front, back  func() int
	size         func() int
	empty        func() bool
	clear        func()
	str          func() string
}

func dequeEnds() *endsCont {
	d := deque.New[int]()
	return &endsCont{d.PushBack, d.PushFront, d.PopBack, d.PopFront, d.Front, d.Back, d.Size, d.Empty, d.Clear, d.String}
}

func vectorEnds() *endsCont {
	v := vector.New[int]()
	return &endsCont{v.PushBack, nil, v.PopBack, nil, v.Front, v.Back, v.Size, v.Empty, v.Clear, v.String}
}

func bidEnds() *endsCont {
	l := bidlist.New[int]()
	return &endsCont{l.PushBack, l.PushFront, l.PopBack, l.PopFront, l.Front, l.Back, l.Size, l.Empty, l.Clear, l.String}
}

func simpleEnds() *endsCont {
	l := simplelist.New[int]()
	return &endsCont{pushB: l.PushBack, pushF: l.PushFront,
		popF:  func() int { return l.Remove(nil, l.FrontNode()) },
		front: func() int { return l.FrontNode().Value }, back: func() int { return l.BackNode().Value },
		size: l.Len, empty: func() bool { return l.Len() == 0 }, str: l.String}
}

func queueEnds(opts ...queue.Option[int]) func() *endsCont {
	return func() *endsCont {
		q := queue.New(opts...)
		return &endsCont{pushB: q.Push, popF: q.Pop, front: q.Front, back: q.Back, size: q.Size, empty: q.Empty, clear: q.Clear, str: q.String}
	}
}

func stackEnds(mk func() *stack.Stack[int]) func() *endsCont {
	return func() *endsCont {
		s := mk()
		return &endsCont{pushB: s.Push, popB: s.Pop, back: s.Top, size: s.Size, empty: s.Empty, clear: s.Clear, str: s.String}
	}
}

var endShapes = []string{"pushed at the back", "pushed at the front", "pushed at both ends", "overfilled and drained", "cleared and filled again", "filled and cycled", "emptied and filled again"}

// fillEnds brings a container to n elements in one of the shapes.
func fillEnds(c *endsCont, r *rand.Rand, n, shape int) {
	pop := func() {
		switch {
		case c.popB == nil || (c.popF != nil && r.IntN(2) == 0):
			c.popF()
		default:
			c.popB()
		}
	}
	push := func(i int, front bool) {
		if c.pushB == nil || front && c.pushF != nil {
			c.pushF(i)
		} else {
			c.pushB(i)
		}
	}
	fill := func(n int) {
		for i := 0; i < n; i++ {
			push(i, false)
		}
	}
	switch shape {
	case 0:
		fill(n)
	case 1:
		for i := 0; i < n; i++ {
			push(i, true)
		}
	case 2:
		for i := 0; i < n; i++ {
			push(i, r.IntN(2) == 0)
		}
	case 3:
		fill(3 * n)
		for i := 0; i < 2*n; i++ {
			pop()
		}
	case 4:
		fill(n + n/2)
		if c.clear != nil {
			c.clear()
		} else {
			for !c.empty() {
				pop()
			}
		}
		fill(n)
	case 5:
		fill(n)
		for i := 0; i < 2*n; i++ {
			push(i, false)
			if c.popF != nil {
				c.popF()
			} else {
				pop()
			}
		}
	case 6:
		fill(2 * n)
		for !c.empty() {
			pop()
		}
		for i := 0; i < n; i++ {
			push(i, i%3 == 0)
		}
	}
}

func endJobs(name string, mk func() *endsCont) {
	with := func(what string, g growth, slack float64, run func(c *endsCont, r *rand.Rand, n int) int) {
		job(name+": "+what, g, slack, endShapes, func(r *rand.Rand, n, shape int) func() int {
			c := mk()
			fillEnds(c, r, n, shape)
			return func() int { return run(c, r, n) }
		})
	}
	c := mk()
	const k = 2000
	if c.pushB != nil {
		with("pushing at the back", gConst, 20, func(c *endsCont, r *rand.Rand, n int) int {
			for i := 0; i < n+k; i++ {
				c.pushB(i)
			}
			return n + k
		})
	}
	if c.pushF != nil {
		with("pushing at the front", gConst, 20, func(c *endsCont, r *rand.Rand, n int) int {
			for i := 0; i < n+k; i++ {
				c.pushF(i)
			}
			return n + k
		})
	}
	if c.popB != nil {
		with("popping at the back until empty", gConst, 20, func(c *endsCont, r *rand.Rand, n int) int {
			for i := 0; i < n; i++ {
				c.popB()
			}
			return n
		})
	}
	if c.popF != nil {
		with("popping at the front until empty", gConst, 20, func(c *endsCont, r *rand.Rand, n int) int {
			for i := 0; i < n; i++ {
				c.popF()
			}
			return n
		})
	}
	// around one size: pushes and pops in turn, a few at a time
	bounce := func(what string, push func(c *endsCont) func(int), pop func(c *endsCont) func() int) {
		if push(c) == nil || pop(c) == nil {
			return
		}
		for _, up := range []bool{true, false} {
			w := what + ", up and back"
			if !up {
				w = what + ", down and back"
			}
			job(name+": "+w, gConst, 20, endShapes, func(r *rand.Rand, n, shape int) func() int {
				c := mk()
				fillEnds(c, r, n, shape)
				pu, po := push(c), pop(c)
				step := 1 + r.IntN(4)
				round := func() int {
					for s := 0; s < 2; s++ {
						for i := 0; i < step; i++ {
							if (s == 0) == up {
								pu(i)
							} else {
								po()
							}
						}
					}
					return 2 * step
				}
				round() // growing once is not what is looked for
				return func() (m int) {
					for m < k {
						m += round()
					}
					return
				}
			})
		}
	}
	pb, pf := func(c *endsCont) func(int) { return c.pushB }, func(c *endsCont) func(int) { return c.pushF }
	ob, of := func(c *endsCont) func() int { return c.popB }, func(c *endsCont) func() int { return c.popF }
	bounce("in and out at the back", pb, ob)
	bounce("in and out at the front", pf, of)
	bounce("in at the back and out at the front", pb, of)
	bounce("in at the front and out at the back", pf, ob)
	// the same at the size where growing or shrinking by one costs most
	worst := func(what string, push func(c *endsCont) func(int), pop func(c *endsCont) func() int, down bool) {
		if push(c) == nil || pop(c) == nil {
			return
		}
		job(name+": "+what, gConst, 20, endShapes, func(r *rand.Rand, n, shape int) func() int {
			seed := r.Uint64()
			build := func() (*endsCont, func()) {
				c := mk()
				q := rand.New(rand.NewPCG(seed, 0))
				pu, po := push(c), pop(c)
				if down {
					fillEnds(c, q, n+n/2, shape)
					return c, func() { po() }
				}
				fillEnds(c, q, n/2, shape)
				return c, func() { pu(1) }
			}
			coverage.ClearCounters()
			// which chunk of steps costs most, and which step in it
			at := 0
			for width := 64; width > 0; width /= 8 {
				_, step := build()
				for i := 0; i < at; i++ {
					step()
				}
				end := at + 8*width
				if width == 64 {
					end = n
				}
				var most float64
				best := at
				for i := at; i+width <= end; i += width {
					var m0, m1 runtime.MemStats
					runtime.ReadMemStats(&m0)
					x := steps.read()
					for w := 0; w < width; w++ {
						step()
					}
					c := float64(steps.read() - x)
					runtime.ReadMemStats(&m1)
					if c += float64(m1.TotalAlloc-m0.TotalAlloc) / 8; c > most {
						most, best = c, i
					}
				}
				at = best
			}
			c, step := build()
			for i := 0; i < at; i++ {
				step()
			}
			pu, po := push(c), pop(c)
			bounce := func(k int) {
				for m := 0; m < k; m += 2 {
					if down {
						po()
						pu(m)
					} else {
						pu(m)
						po()
					}
				}
			}
			bounce(2) // growing once is not what is looked for
			return func() int { bounce(k); return k }
		})
	}
	for _, e := range []struct {
		n string
		p func(c *endsCont) func(int)
		o func(c *endsCont) func() int
	}{{"back", pb, ob}, {"front", pf, of}} {
		worst("in and out at the "+e.n+" where growing costs most", e.p, e.o, false)
		worst("out and in at the "+e.n+" where shrinking costs most", e.p, e.o, true)
	}
	worst("in at the back, out at the front where growing costs most", pb, of, false)
	with("reading the ends and the size", gConst, 10, func(c *endsCont, r *rand.Rand, n int) int {
		for i := 0; i < k; i++ {
			if c.front != nil {
				c.front()
			}
			if c.back != nil {
				c.back()
			}
			c.size()
			c.empty()
		}
		return k
	})
	exactly()
	if c.clear != nil {
		with("Clear, per element", gConst, 20, func(c *endsCont, r *rand.Rand, n int) int {
			c.clear()
			return n
		})
	}
	with("String, per element", gConst, 20, func(c *endsCont, r *rand.Rand, n int) int {
		c.str()
		return n
	})
	stepJobs[len(stepJobs)-1].anyBytes = true
}

var one = []string{"as made"}

func seqJobs() {
	const k = 2000
	// index access, iteration and moves in the middle
	type indexed struct {
		name string
		mk   func(r *rand.Rand, n, shape int) (at func(int) int, set func(int, int), iterAt func(int) iterInt, size func() int)
		sh   []string
	}
	for _, x := range []indexed{
		{"deque", func(r *rand.Rand, n, shape int) (func(int) int, func(int, int), func(int) iterInt, func() int) {
			d := deque.New[int]()
			fillEnds(&endsCont{pushB: d.PushBack, pushF: d.PushFront, popB: d.PopBack, popF: d.PopFront, empty: d.Empty, clear: d.Clear}, r, n, shape)
			return d.At, func(p, v int) { d.Set(p, v) }, func(p int) iterInt { return d.IterAt(p) }, d.Size
		}, endShapes},
		{"vector", func(r *rand.Rand, n, shape int) (func(int) int, func(int, int), func(int) iterInt, func() int) {
			d := vector.New[int]()
			fillEnds(&endsCont{pushB: d.PushBack, popB: d.PopBack, empty: d.Empty, clear: d.Clear}, r, n, shape)
			return d.At, d.SetAt, func(p int) iterInt { return d.IterAt(p) }, d.Size
		}, endShapes},
		{"array", func(r *rand.Rand, n, shape int) (func(int) int, func(int, int), func(int) iterInt, func() int) {
			d := array.New[int](n)
			return d.At, d.Set, func(p int) iterInt { return d.IterAt(p) }, d.Size
		}, one},
		{"slice wrapper", func(r *rand.Rand, n, shape int) (func(int) int, func(int, int), func(int) iterInt, func() int) {
			d := slice.NewSliceWrapper(make([]int, n))
			return d.At, d.Set, func(p int) iterInt { return d.Begin().IteratorAt(p) }, d.Len
		}, one},
	} {
		job(x.name+": reading and writing by index", gConst, 20, x.sh, func(r *rand.Rand, n, shape int) func() int {
			at, set, _, size := x.mk(r, n, shape)
			return func() int {
				for i := 0; i < k; i++ {
					at(r.IntN(n))
					set(r.IntN(n), i)
					size()
				}
				return k
			}
		})
		exactly()
		job(x.name+": iterators at an index", gConst, 30, x.sh, func(r *rand.Rand, n, shape int) func() int {
			_, _, iterAt, _ := x.mk(r, n, shape)
			return func() int {
				for i := 0; i < k; i++ {
					it := iterAt(r.IntN(n))
					it.SetValue(it.Value() + 1)
					c := it.IteratorAt(r.IntN(n))
					c.Equal(it)
					c.Clone()
					c.Position()
				}
				return k
			}
		})
		exactly()
		job(x.name+": iterating forwards, per step", gConst, 15, x.sh, func(r *rand.Rand, n, shape int) func() int {
			_, _, iterAt, _ := x.mk(r, n, shape)
			return func() int {
				m := 0
				for it := iterAt(0); it.IsValid(); it.Next() {
					it.Value()
					m++
				}
				return m
			}
		})
		exactly()
		job(x.name+": iterating backwards, per step", gConst, 15, x.sh, func(r *rand.Rand, n, shape int) func() int {
			_, _, iterAt, _ := x.mk(r, n, shape)
			return func() int {
				m := 0
				for it := iterAt(n - 1); it.IsValid(); it.Prev() {
					it.Value()
					m++
				}
				return m
			}
		})
		exactly()
		algoJobs(x.name, x.sh, x.mk)
	}
	job("deque: insertion anywhere, per element", gConst, 20, endShapes, func(r *rand.Rand, n, shape int) func() int {
		d := deque.New[int]()
		fillEnds(&endsCont{pushB: d.PushBack, pushF: d.PushFront, popB: d.PopBack, popF: d.PopFront, empty: d.Empty, clear: d.Clear}, r, n, shape)
		return func() int {
			for i := 0; i < 20; i++ {
				d.Insert(r.IntN(d.Size()+1), i)
			}
			return n / 10
		}
	})
	job("deque: erasing anywhere, per element", gConst, 20, endShapes, func(r *rand.Rand, n, shape int) func() int {
		d := deque.New[int]()
		fillEnds(&endsCont{pushB: d.PushBack, pushF: d.PushFront, popB: d.PopBack, popF: d.PopFront, empty: d.Empty, clear: d.Clear}, r, n, shape)
		return func() int {
			for i := 0; i < 20; i++ {
				d.EraseAt(r.IntN(d.Size()))
			}
			return n / 10
		}
	})
	job("vector: insertion anywhere, per element", gConst, 20, endShapes, func(r *rand.Rand, n, shape int) func() int {
		v := vector.New[int]()
		fillEnds(&endsCont{pushB: v.PushBack, popB: v.PopBack, empty: v.Empty, clear: v.Clear}, r, n, shape)
		return func() int {
			for i := 0; i < 20; i++ {
				v.InsertAt(r.IntN(v.Size()+1), i)
			}
			return n
		}
	})
	job("vector: erasing anywhere, per element", gConst, 20, endShapes, func(r *rand.Rand, n, shape int) func() int {
		v := vector.New[int]()
		fillEnds(&endsCont{pushB: v.PushBack, popB: v.PopBack, empty: v.Empty, clear: v.Clear}, r, n, shape)
		return func() int {
			for i := 0; i < 20; i++ {
				v.EraseAt(r.IntN(v.Size()))
			}
			v.EraseIndexRange(v.Size()/4, v.Size()/2)
			return n
		}
	})
	job("vector: copying, reserving, resizing and shrinking, per element", gConst, 20, endShapes, func(r *rand.Rand, n, shape int) func() int {
		v := vector.New[int]()
		fillEnds(&endsCont{pushB: v.PushBack, popB: v.PopBack, empty: v.Empty, clear: v.Clear}, r, n, shape)
		return func() int {
			vector.NewFromVector(v)
			v.Reserve(2 * n)
			v.Resize(n / 2)
			v.ShrinkToFit()
			return n
		}
	})
	job("array: making, filling and copying, per element", gConst, 20, one, func(r *rand.Rand, n, shape int) func() int {
		return func() int {
			a := array.New[int](n)
			a.Fill(3)
			b := array.NewFromArray(a)
			a.SwapArray(b)
			return n
		}
	})
}

type (
	iterInt  = iterator.RandomAccessIterator[int]
	constInt = iterator.ConstIterator[int]
)

func listJobs() {
	const k = 2000
	shapes := []string{"from the front", "from the back", "in random order"}
	pick := func(r *rand.Rand, n, shape int) []int {
		p := r.Perm(n)
		switch shape {
		case 0:
			sort.Ints(p)
		case 1:
			sort.Sort(sort.Reverse(sort.IntSlice(p)))
		}
		return p
	}
	bid := func(n int) (*bidlist.List[int], []*bidlist.Node[int]) {
		l := bidlist.New[int]()
		var ns []*bidlist.Node[int]
		for i := 0; i < n; i++ {
			l.PushBack(i)
			ns = append(ns, l.BackNode())
		}
		return l, ns
	}
	job("bidlist: inserting next to nodes", gConst, 10, shapes, func(r *rand.Rand, n, shape int) func() int {
		l, ns := bid(n)
		p := pick(r, n, shape)
		return func() int {
			for i := 0; i < k; i++ {
				l.InsertAfter(i, ns[p[i%n]])
				l.InsertBefore(i, ns[p[i%n]])
			}
			return 2 * k
		}
	})
	job("bidlist: moving nodes", gConst, 10, shapes, func(r *rand.Rand, n, shape int) func() int {
		l, ns := bid(n)
		p := pick(r, n, shape)
		return func() int {
			for i := 0; i < k; i++ {
				switch x := ns[p[i%n]]; i % 3 {
				case 0:
					l.MoveToFront(x)
				case 1:
					l.MoveToBack(x)
				default:
					l.MoveAfter(x, ns[p[(i*7+1)%n]])
				}
				l.Len()
			}
			return k
		}
	})
	job("bidlist: removing nodes", gConst, 10, shapes, func(r *rand.Rand, n, shape int) func() int {
		l, ns := bid(n)
		p := pick(r, n, shape)
		return func() int {
			for _, i := range p {
				l.Remove(ns[i])
			}
			return n
		}
	})
	job("bidlist: walking nodes, iterators and visits, per step", gConst, 10, one, func(r *rand.Rand, n, shape int) func() int {
		l, _ := bid(n)
		return func() int {
			m := 0
			for x := l.FrontNode(); x != nil; x = x.Next() {
				m++
			}
			for x := l.BackNode(); x != nil; x = x.Prev() {
				m++
			}
			for it := bidlist.NewIterator(l.FrontNode()); it.IsValid(); it.Next() {
				it.Value()
				m++
			}
			for it := bidlist.NewIterator(l.BackNode()); it.IsValid(); it.Prev() {
				it.Value()
				m++
			}
			l.Traversal(func(int) bool { m++; return true })
			return m
		}
	})
	exactly()
	job("bidlist: appending lists, per element", gConst, 10, one, func(r *rand.Rand, n, shape int) func() int {
		a, _ := bid(n)
		b, _ := bid(n)
		return func() int {
			a.PushBackList(b)
			b.PushFrontList(a)
			return 3 * n
		}
	})
	job("bidlist: visits stopped early", gConst, 10, one, func(r *rand.Rand, n, shape int) func() int {
		l, _ := bid(n)
		return func() int {
			for i := 0; i < 300; i++ {
				m := 0
				l.Traversal(func(int) bool { m++; return m < 5 })
			}
			return 300
		}
	})
	exactly()
	simple := func(n int) (*simplelist.List[int], []*simplelist.Node[int]) {
		l := simplelist.New[int]()
		var ns []*simplelist.Node[int]
		for i := 0; i < n; i++ {
			l.PushBack(i)
			ns = append(ns, l.BackNode())
		}
		return l, ns
	}
	job("simplelist: inserting after nodes", gConst, 10, shapes, func(r *rand.Rand, n, shape int) func() int {
		l, ns := simple(n)
		p := pick(r, n, shape)
		return func() int {
			for i := 0; i < k; i++ {
				l.InsertAfter(i, ns[p[i%n]])
				l.Len()
			}
			return k
		}
	})
	job("simplelist: removing and moving nodes after known ones", gConst, 10, one, func(r *rand.Rand, n, shape int) func() int {
		l, _ := simple(n)
		return func() int {
			for i := 0; i < n/4; i++ {
				pre := l.FrontNode()
				l.Remove(pre, pre.Next())
				l.MoveToFront(l.FrontNode(), l.FrontNode().Next())
				l.MoveToBack(l.FrontNode(), l.FrontNode().Next())
			}
			return n / 4
		}
	})
	job("simplelist: walking nodes, iterators and visits, per step", gConst, 10, one, func(r *rand.Rand, n, shape int) func() int {
		l, _ := simple(n)
		return func() int {
			m := 0
			for x := l.FrontNode(); x != nil; x = x.Next() {
				m++
			}
			for it := simplelist.NewIterator(l.FrontNode()); it.IsValid(); it.Next() {
				it.Value()
				m++
			}
			l.Traversal(func(int) bool { m++; return true })
			return m
		}
	})
	exactly()
	job("simplelist: visits stopped early", gConst, 10, one, func(r *rand.Rand, n, shape int) func() int {
		l, _ := simple(n)
		return func() int {
			for i := 0; i < 300; i++ {
				m := 0
				l.Traversal(func(int) bool { m++; return m < 5 })
			}
			return 300
		}
	})
	exactly()
}

// ---- algorithms over a range ----

func algoJobs(name string, sh []string, mk func(r *rand.Rand, n, shape int) (func(int) int, func(int, int), func(int) iterInt, func() int)) {
	cmp := func(a, b int) int { return refOrd(a, b) }
	orders := []string{"random", "rising", "falling", "organ pipe", "blocks", "few values"}
	load := func(r *rand.Rand, n, order int) func(int) iterInt {
		_, set, iterAt, _ := mk(r, n, 0)
		for i := 0; i < n; i++ {
			v := i
			switch order {
			case 0:
				v = r.IntN(1 << 40)
			case 2:
				v = n - i
			case 3:
				v = min(i, n-i)
			case 4:
				v = (i%16)*n + i/16
			case 5:
				v = r.IntN(4)
			}
			set(i, v)
		}
		return iterAt
	}
	job(name+": Sort, per element", gLog, 30, orders[:3], func(r *rand.Rand, n, order int) func() int {
		at := load(r, n, order)
		return func() int { algosort.Sort(at(0), at(n), cmp); return n }
	})
	job(name+": Stable, per element", gLog, 30, orders, func(r *rand.Rand, n, order int) func() int {
		at := load(r, n, order)
		return func() int { algosort.Stable(at(0), at(n), cmp); return n }
	})
	stepJobs[len(stepJobs)-1].anyBytes = true
	job(name+": NthElement, per element", gConst, 60, orders[:2], func(r *rand.Rand, n, order int) func() int {
		at := load(r, n, order)
		return func() int { algosort.NthElement(at(0), at(n), r.IntN(n), cmp); return n }
	})
	job(name+": binary searches", gLog, 30, one, func(r *rand.Rand, n, _ int) func() int {
		at := load(r, n, 1)
		return func() int {
			for i := 0; i < 300; i++ {
				x := r.IntN(n+2) - 1
				algosort.LowerBound(at(0), at(n), x, cmp)
				algosort.UpperBound(at(0), at(n), x, cmp)
				algosort.BinarySearch(at(0), at(n), x, cmp)
			}
			return 900
		}
	})
	job(name+": searches and scans, per element", gConst, 30, one, func(r *rand.Rand, n, _ int) func() int {
		at := load(r, n, 0)
		return func() int {
			f, l := at(0), at(n)
			algorithm.Count[int](f.Clone(), l, 3, cmp)
			algorithm.Find[int](f.Clone(), l, -3, cmp)
			algorithm.MaxElement[int](f.Clone(), l, cmp)
			algorithm.MinElement[int](f.Clone(), l, cmp)
			algorithm.AllOf[int](f.Clone(), l, func(constInt) bool { return true })
			algorithm.AnyOf[int](f.Clone(), l, func(constInt) bool { return false })
			algorithm.NoneOf[int](f.Clone(), l, func(constInt) bool { return false })
			return n
		}
	})
	job(name+": searches that end early", gConst, 30, one, func(r *rand.Rand, n, _ int) func() int {
		at := load(r, n, 1)
		return func() int {
			for i := 0; i < 300; i++ {
				f, l := at(0), at(n)
				algorithm.Find[int](f.Clone(), l, 3, cmp)
				algorithm.AllOf[int](f.Clone(), l, func(constInt) bool { return false })
				algorithm.AnyOf[int](f.Clone(), l, func(constInt) bool { return true })
				algorithm.NoneOf[int](f.Clone(), l, func(constInt) bool { return true })
			}
			return 300
		}
	})
	exactly()
	job(name+": Reverse and NextPermutation, per element", gConst, 30, orders, func(r *rand.Rand, n, order int) func() int {
		at := load(r, n, order)
		return func() int {
			algorithm.Reverse[int](at(0), at(n))
			algosort.NextPermutation(at(0), at(n), cmp)
			return n
		}
	})
}

// ---- ordered containers ----

var keyShapes = []string{"rising", "falling", "both ends", "from the middle", "blocks", "squares", "random", "thinned out"}

func keysOf(r *rand.Rand, n, shape int) []int {
	ks := make([]int, n)
	for i := range ks {
		switch shape {
		case 0:
			ks[i] = i
		case 1:
			ks[i] = n - i
		case 2:
			ks[i] = i / 2
			if i%2 == 1 {
				ks[i] = 2*n - i/2
			}
		case 3:
			ks[i] = n + (i/2)*(1-2*(i%2))
		case 4:
			ks[i] = (i%16)*n + i/16
		case 5:
			ks[i] = i * i % (n + 1)
		case 6:
			ks[i] = r.IntN(4 * n)
		}
	}
	if shape == thinned {
		copy(ks, r.Perm(4*n))
	}
	return ks
}

// thinned is the shape of a container that was four times as large.
const thinned = 7

// thinOut fills a container with 4n keys, takes three out of four away again in
// random order and returns those left.
func thinOut(r *rand.Rand, n int, insert func(int), erase func(int)) []int {
	p := r.Perm(4 * n)
	for _, x := range p {
		insert(x)
	}
	r.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
	for _, x := range p[n:] {
		erase(x)
	}
	return p[:n]
}

func ordJobs() {
	const k = 1000
	names := map[int]string{kTree: "rbtree", kTreeNodes: "rbtree nodes", kMap: "map", kMultiMap: "multimap", kSet: "set", kMultiSet: "multiset"}
	for _, kind := range []int{kTree, kTreeNodes, kMap, kMultiMap, kSet, kMultiSet} {
		name := names[kind]
		shapes := keyShapes
		multi := kind == kMultiMap || kind == kMultiSet || kind == kTreeNodes
		if multi {
			shapes = append(append([]string{}, keyShapes...), "one key", "three keys", "groups")
		}
		keys := func(r *rand.Rand, n, shape int) []int {
			if shape < len(keyShapes) {
				return keysOf(r, n, shape)
			}
			ks := keysOf(r, n, 6)
			g := []int{1, 3, 1 + n/10}[shape-len(keyShapes)]
			for i := range ks {
				ks[i] %= g
			}
			return ks
		}
		mk := func(r *rand.Rand) *ordCont { return makeOrdE(&T{R: r}, kind, cmpK) }
		full := func(r *rand.Rand, n, shape int) (*ordCont, []int) {
			c := mk(r)
			if shape == thinned {
				return c, thinOut(r, n, func(x int) { c.insert(E{x, 0}, x) }, func(x int) { c.erase(E{x, 0}) })
			}
			ks := keys(r, n, shape)
			for i, x := range ks {
				c.insert(E{x, i}, i)
			}
			return c, ks
		}
		job(name+": insertion", gLog, 20, shapes, func(r *rand.Rand, n, shape int) func() int {
			c := mk(r)
			ks := keys(r, n, shape)
			return func() int {
				for i, x := range ks {
					c.insert(E{x, i}, i)
				}
				return n
			}
		})
		job(name+": lookups", gLog, 20, shapes, func(r *rand.Rand, n, shape int) func() int {
			c, ks := full(r, n, shape)
			return func() int {
				for i := 0; i < k; i++ {
					x := E{ks[r.IntN(n)] + r.IntN(2), 0}
					c.find(x)
					c.lower(x)
					c.upper(x)
					if c.contains != nil {
						c.contains(x)
					}
					if c.get != nil {
						c.get(x)
					}
				}
				return k
			}
		})
		job(name+": the ends and the size", gLog, 20, shapes, func(r *rand.Rand, n, shape int) func() int {
			c, _ := full(r, n, shape)
			return func() int {
				for i := 0; i < k; i++ {
					c.first()
					c.last()
					c.begin()
				}
				return k
			}
		})
		job(name+": the size", gConst, 5, one, func(r *rand.Rand, n, shape int) func() int {
			c, _ := full(r, n, shape)
			return func() int {
				for i := 0; i < k; i++ {
					c.size()
					if c.empty != nil {
						c.empty()
					}
				}
				return k
			}
		})
		exactly()
		job(name+": erasing until empty", gLog, 20, shapes, func(r *rand.Rand, n, shape int) func() int {
			c, ks := full(r, n, shape)
			if r.IntN(2) == 0 {
				r.Shuffle(n, func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
			}
			return func() int {
				for _, x := range ks {
					if !c.find(E{x, 0}).valid() {
						continue
					}
					c.erase(E{x, 0})
				}
				return n
			}
		})
		job(name+": replacing at one size", gLog, 20, keyShapes, func(r *rand.Rand, n, shape int) func() int {
			c, ks := full(r, n, shape)
			return func() int {
				gone := 0
				for i := 0; i < k; i++ {
					x := E{ks[r.IntN(n)], i}
					if c.find(x).valid() {
						m := c.size()
						c.erase(x)
						gone += m - c.size()
					}
					c.insert(x, i)
				}
				return k + gone
			}
		})
		job(name+": always the least out", gLog, 20, shapes, func(r *rand.Rand, n, shape int) func() int {
			c, _ := full(r, n, shape)
			return func() int {
				m := 0
				for c.size() > 0 {
					c.erase(c.first().key())
					m++
				}
				return n
			}
		})
		for _, back := range []bool{false, true} {
			what := name + ": iterating forwards, per step"
			if back {
				what = name + ": iterating backwards, per step"
			}
			job(what, gConst, 0, shapes, func(r *rand.Rand, n, shape int) func() int {
				c, _ := full(r, n, shape)
				return func() int {
					m := 0
					if back {
						for it := c.last(); it.valid(); it.prev() {
							it.key()
							m++
						}
					} else {
						for it := c.first(); it.valid(); it.next() {
							it.key()
							m++
						}
					}
					return m
				}
			})
			exactly()
			// the number of links followed is that of the tree, twice
			stepJobs[len(stepJobs)-1].factor, stepJobs[len(stepJobs)-1].slack = 1.1, 0.5
		}
		job(name+": a visit, per element", gConst, 20, shapes, func(r *rand.Rand, n, shape int) func() int {
			c, _ := full(r, n, shape)
			return func() int {
				m := 0
				c.traverse(func(E, int) bool { m++; return true })
				return m
			}
		})
		exactly()
		job(name+": visits stopped early", gLog, 20, shapes, func(r *rand.Rand, n, shape int) func() int {
			c, _ := full(r, n, shape)
			return func() int {
				for i := 0; i < 300; i++ {
					m := 0
					c.traverse(func(E, int) bool { m++; return m < 5 })
				}
				return 300
			}
		})
		job(name+": Clear, per element", gConst, 20, one, func(r *rand.Rand, n, shape int) func() int {
			c, _ := full(r, n, shape)
			return func() int { c.clear(); return n }
		})
		if kind == kMultiSet {
			job(name+": Count of an element, per element", gConst, 20, shapes, func(r *rand.Rand, n, shape int) func() int {
				c, ks := full(r, n, shape)
				return func() int {
					for i := 0; i < 30; i++ {
						c.count(E{ks[r.IntN(n)], 0})
					}
					return 10 * n
				}
			})
		}
	}
	job("set: union, intersection and difference, per element", gLog, 30, keyShapes, func(r *rand.Rand, n, shape int) func() int {
		a, b := set.New[int](refOrd[int]), set.New[int](refOrd[int])
		for i, x := range keysOf(r, n, shape) {
			a.Insert(x)
			b.Insert(x + i%3)
		}
		return func() int {
			a.Union(b)
			a.Intersect(b)
			a.Diff(b)
			return n
		}
	})
}

// ---- skip list, hash trie, heap, priority queue, bitmap, filter, ring ----

func otherJobs() {
	const k = 1000
	for _, lev := range []int{0, 16, 30} {
		name := "skiplist"
		var opts []skiplist.Option
		if lev > 0 {
			name += " with " + strconv.Itoa(lev) + " levels"
			opts = append(opts, skiplist.WithMaxLevel(lev))
		}
		mk := func() *skiplist.Skiplist[int, int] { return skiplist.New[int, int](refOrd[int], opts...) }
		full := func(r *rand.Rand, n, shape int) (*skiplist.Skiplist[int, int], []int) {
			s := mk()
			if shape == thinned {
				return s, thinOut(r, n, func(x int) { s.Insert(x, x) }, func(x int) { s.Remove(x) })
			}
			ks := keysOf(r, n, shape)
			for i, x := range ks {
				s.Insert(x, i)
			}
			return s, ks
		}
		job(name+": insertion", gLog, 60, keyShapes, func(r *rand.Rand, n, shape int) func() int {
			s := mk()
			ks := keysOf(r, n, shape)
			return func() int {
				for i, x := range ks {
					s.Insert(x, i)
				}
				return n
			}
		})
		job(name+": lookups", gLog, 60, keyShapes, func(r *rand.Rand, n, shape int) func() int {
			s, ks := full(r, n, shape)
			return func() int {
				for i := 0; i < k; i++ {
					s.Get(ks[r.IntN(n)] + r.IntN(2))
					s.Len()
				}
				return k
			}
		})
		job(name+": erasing until empty", gLog, 60, keyShapes, func(r *rand.Rand, n, shape int) func() int {
			s, ks := full(r, n, shape)
			if r.IntN(2) == 0 {
				r.Shuffle(n, func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
			}
			return func() int {
				for _, x := range ks {
					s.Remove(x)
				}
				return n
			}
		})
		job(name+": listing and visiting, per element", gConst, 20, keyShapes, func(r *rand.Rand, n, shape int) func() int {
			s, _ := full(r, n, shape)
			return func() int {
				m := len(s.Keys())
				s.Traversal(func(int, int) bool { m++; return true })
				return m
			}
		})
		job(name+": visits stopped early", gConst, 20, one, func(r *rand.Rand, n, shape int) func() int {
			s, _ := full(r, n, thinned)
			return func() int {
				for i := 0; i < 300; i++ {
					m := 0
					s.Traversal(func(int, int) bool { m++; return m < 5 })
				}
				return 300
			}
		})
		exactly()
	}

	// the hash trie's nodes hold up to 64 children, so a step on a node may cost
	// that much at any size
	hkeys := []string{"numbers", "bytes", "long", "thinned out", "very long"}
	farKeys := strings.Repeat("a very long common beginning of every key, ", 30)
	hkey := func(i, shape int) hamt.Key {
		switch shape {
		case 0, 3:
			return hamt.Key(strconv.Itoa(i))
		case 1:
			return hamt.Key{byte(i), byte(i >> 8), byte(i >> 16), 'x'}
		case 4:
			return hamt.Key(farKeys + strconv.Itoa(i) + farKeys)
		}
		return hamt.Key(fmt.Sprintf("a rather long common beginning of every key %08d and an end", i))
	}
	trie := func(n, shape int) *hamt.Hamt[int] {
		h := hamt.New[int]()
		m := n
		if shape == 3 {
			m = 4 * n
		}
		for i := 0; i < m; i++ {
			h.Insert(hkey(i, shape), i)
		}
		for i := n; i < m; i++ {
			h.Erase(hkey(i, shape))
		}
		return h
	}
	job("hamt: insertion", gLog, 200, hkeys, func(r *rand.Rand, n, shape int) func() int {
		h := hamt.New[int]()
		return func() int {
			for i := 0; i < n; i++ {
				h.Insert(hkey(i, shape), i)
			}
			return n
		}
	})
	job("hamt: lookups", gLog, 40, hkeys, func(r *rand.Rand, n, shape int) func() int {
		h := trie(n, shape)
		return func() int {
			for i := 0; i < k; i++ {
				h.Get(hkey(r.IntN(2*n), shape))
			}
			return k
		}
	})
	job("hamt: erasing until empty", gLog, 200, hkeys, func(r *rand.Rand, n, shape int) func() int {
		h := trie(n, shape)
		p := r.Perm(n)
		return func() int {
			for _, i := range p {
				h.Erase(hkey(i, shape))
			}
			return n
		}
	})
	job("hamt: replacing at one size", gLog, 200, hkeys, func(r *rand.Rand, n, shape int) func() int {
		h := trie(n, shape)
		return func() int {
			for i := 0; i < k; i++ {
				x := hkey(r.IntN(n), shape)
				h.Erase(x)
				h.Insert(x, i)
			}
			return k
		}
	})
	job("hamt: listing and visiting, per element", gConst, 40, hkeys, func(r *rand.Rand, n, shape int) func() int {
		h := trie(n, shape)
		return func() int {
			h.Keys()
			h.StringKeys()
			h.Traversal(func(hamt.Key, int) bool { return true })
			return n
		}
	})
	job("hamt: visits stopped early", gLog, 60, hkeys, func(r *rand.Rand, n, shape int) func() int {
		h := trie(n, shape)
		return func() int {
			for i := 0; i < 300; i++ {
				m := 0
				h.Traversal(func(hamt.Key, int) bool { m++; return m < 5 })
			}
			return 300
		}
	})

	pq := func(r *rand.Rand, n, shape int) (*priorityqueue.PriorityQueue[int], []int) {
		q := priorityqueue.New[int](refOrd[int])
		if shape == thinned {
			for _, x := range r.Perm(4 * n) {
				q.Push(x)
			}
			for i := 0; i < 3*n; i++ {
				q.Pop()
			}
			return q, r.Perm(n)
		}
		ks := keysOf(r, n, shape)
		for _, x := range ks {
			q.Push(x)
		}
		return q, ks
	}
	job("priority queue: pushing", gLog, 20, keyShapes, func(r *rand.Rand, n, shape int) func() int {
		q, ks := pq(r, n, shape)
		return func() int {
			for _, x := range ks {
				q.Push(x)
			}
			return n
		}
	})
	job("priority queue: popping until empty", gLog, 20, keyShapes, func(r *rand.Rand, n, shape int) func() int {
		q, _ := pq(r, n, shape)
		return func() int {
			for !q.Empty() {
				q.Pop()
			}
			return n
		}
	})
	job("priority queue: in and out at one size", gLog, 20, keyShapes, func(r *rand.Rand, n, shape int) func() int {
		q, ks := pq(r, n, shape)
		q.Push(1)
		q.Pop()
		return func() int {
			for i := 0; i < k; i++ {
				q.Push(ks[r.IntN(n)])
				q.Pop()
			}
			return k
		}
	})
	job("priority queue: the top and the size", gConst, 10, keyShapes, func(r *rand.Rand, n, shape int) func() int {
		q, _ := pq(r, n, shape)
		return func() int {
			for i := 0; i < k; i++ {
				q.Top()
				q.Size()
				q.Empty()
			}
			return k
		}
	})
	exactly()
	job("priority queue: Clear, per element", gConst, 20, one, func(r *rand.Rand, n, shape int) func() int {
		q, _ := pq(r, n, 6)
		return func() int { q.Clear(); return n }
	})
	hp := func(r *rand.Rand, n, shape int) *stepHeap {
		return &stepHeap{append(make([]int, 0, n+8), keysOf(r, n, shape)...)}
	}
	job("heap: Init, per element", gConst, 20, keyShapes, func(r *rand.Rand, n, shape int) func() int {
		h := hp(r, n, shape)
		return func() int { heap.Init[int](h); return n }
	})
	exactly()
	job("heap: Push, Fix, Remove and Pop", gLog, 20, keyShapes, func(r *rand.Rand, n, shape int) func() int {
		h := hp(r, n, shape)
		heap.Init[int](h)
		return func() int {
			for i := 0; i < k; i++ {
				heap.Push[int](h, r.IntN(2*n))
				j := r.IntN(n)
				h.es[j] = r.IntN(2 * n)
				heap.Fix[int](h, j)
				heap.Remove[int](h, r.IntN(n))
				heap.Push[int](h, r.IntN(2*n))
				heap.Pop[int](h)
			}
			return k
		}
	})

	job("bitmap: setting, clearing and reading bits", gConst, 10, one, func(r *rand.Rand, n, shape int) func() int {
		b := bitmap.New(uint64(64 * n))
		return func() int {
			for i := 0; i < k; i++ {
				b.Set(uint64(r.IntN(64 * n)))
				b.Unset(uint64(r.IntN(64 * n)))
				b.IsSet(uint64(r.IntN(64 * n)))
				b.Size()
			}
			return k
		}
	})
	exactly()
	job("bitmap: making, resizing, exporting and clearing, per byte", gConst, 20, one, func(r *rand.Rand, n, shape int) func() int {
		return func() int {
			b := bitmap.New(uint64(8 * n))
			b.Resize(uint64(16 * n))
			b.Clear()
			bitmap.NewFromData(b.Data())
			b.Resize(uint64(2 * n))
			return n
		}
	})
	ks := []string{"1 hash", "3 hashes", "9 hashes"}
	job("bloom filter: adding and asking", gConst, 20, ks, func(r *rand.Rand, n, shape int) func() int {
		f := bloom.New(uint64(64*n), []uint64{1, 3, 9}[shape])
		for i := 0; i < n; i++ {
			f.Add(strconv.Itoa(i))
		}
		return func() int {
			for i := 0; i < k; i++ {
				f.Add(strconv.Itoa(r.IntN(1 << 40)))
				f.Contains(strconv.Itoa(r.IntN(n)))
			}
			return k
		}
	})
	exactly()
	job("bloom filter: export and import, per byte", gConst, 20, ks, func(r *rand.Rand, n, shape int) func() int {
		f := bloom.New(uint64(8*n), []uint64{1, 3, 9}[shape])
		return func() int { bloom.NewFromData(f.Data()); return n }
	})
	reps := []string{"1 point a node", "10 points a node", "40 points a node"}
	ring := func(n, shape int) (*ketama.Ketama, int) {
		p := []int{1, 10, 40}[shape]
		r := ketama.New(ketama.WithReplicas(p))
		for i := 0; i < 1+n/p; i++ {
			r.Add("node-" + strconv.Itoa(i))
		}
		return r, 1 + n/p
	}
	job("ring: lookups", gLog, 30, reps, func(r *rand.Rand, n, shape int) func() int {
		g, _ := ring(n, shape)
		return func() int {
			for i := 0; i < k; i++ {
				g.Get(strconv.Itoa(r.IntN(1 << 40)))
				g.Empty()
			}
			return k
		}
	})
	job("ring: nodes out and in, per point", gLog, 60, reps, func(r *rand.Rand, n, shape int) func() int {
		g, nodes := ring(n, shape)
		return func() int {
			for i := 0; i < 100; i++ {
				x := "node-" + strconv.Itoa(r.IntN(nodes))
				g.Remove(x)
				g.Add(x)
			}
			return 100 * []int{1, 10, 40}[shape]
		}
	})
}

type stepHeap struct{ es []int }

func (h *stepHeap) Len() int           { return len(h.es) }
func (h *stepHeap) Less(i, j int) bool { return h.es[i] < h.es[j] }
func (h *stepHeap) Swap(i, j int)      { h.es[i], h.es[j] = h.es[j], h.es[i] }
func (h *stepHeap) Push(x int)         { h.es = append(h.es, x) }
func (h *stepHeap) Pop() int {
	x := h.es[len(h.es)-1]
	h.es = h.es[:len(h.es)-1]
	return x
}

// ---- the suite ----

func buildStepJobs() {
	if stepJobs != nil {
		return
	}
	endJobs("deque", dequeEnds)
	endJobs("vector", vectorEnds)
	endJobs("bidlist", bidEnds)
	endJobs("simplelist", simpleEnds)
	endJobs("queue", func() *endsCont { return queueEnds()() })
	endJobs("queue on a list", func() *endsCont { return queueEnds(queue.WithListContainer[int](), queue.WithGoroutineSafe[int]())() })
	endJobs("stack", stackEnds(func() *stack.Stack[int] { return stack.New[int]() }))
	endJobs("stack on a list", stackEnds(func() *stack.Stack[int] {
		return stack.New(stack.WithListContainer[int](), stack.WithGoroutineSafe[int]())
	}))
	seqJobs()
	listJobs()
	ordJobs()
	otherJobs()
}

// smallSizes are the sizes the cost is calibrated at.
var smallSizes = []int{150, 200, 255, 256, 257, 300, 383, 384, 385, 450, 511, 512, 513, 600}

type stepKey struct {
	job   *stepJob
	shape int
}

var stepBase = map[stepKey]cost{}

// baseline is the greatest cost per operation over the small sizes, divided by
// the growth allowed there.
func baseline(t *T, j *stepJob, shape int) cost {
	k := stepKey{j, shape}
	if c, ok := stepBase[k]; ok {
		return c
	}
	var c cost
	for i, n := range smallSizes {
		r := rand.New(rand.NewPCG(uint64(n), uint64(i)))
		x := measure(j.make(r, n, shape))
		f := j.grow.f(float64(n))
		c.steps, c.bytes = math.Max(c.steps, x.steps/f), math.Max(c.bytes, x.bytes/f)
		t.Tick()
	}
	stepBase[k] = c
	return c
}

func stepSize(t *T, exact bool) int {
	lo, hi := 4096, 12000
	if t.Tier == "thorough" || t.Chance(6) || exact && t.Chance(2) {
		hi = 40000
	}
	switch t.Intn(4) {
	case 0: // around a power of two
		for n := lo << t.Intn(4); ; n /= 2 {
			if n <= hi {
				return n + t.Intn(3) - 1
			}
		}
	case 1: // around a whole number of segments
		return (lo+t.Intn(hi-lo))/128*128 + t.Intn(3) - 1
	}
	return lo + t.Intn(hi-lo)
}

func runSteps(t *T) {
	buildStepJobs()
	// neighbouring cases of one worker take different jobs; each job's shapes
	// and sizes come round over the cases
	j := stepJobs[t.Case%len(stepJobs)]
	shape := t.Intn(len(j.shapes))
	n := stepSize(t, j.factor < 2)
	t.Op("measure", j.name, j.shapes[shape], n)
	base := baseline(t, j, shape)
	f := j.grow.f(float64(n))
	t.Tick()
	x := measure(j.make(t.R, n, shape))
	t.Count("stretches of operations measured")
	t.Count("measured as " + j.grow.name)
	t.CountN("library steps counted, about", int(x.steps*float64(n)))
	if lim := j.factor*base.steps*f + j.slack; x.steps > lim {
		t.Failf("%s, %s: %.1f steps per operation with %d elements; up to %d elements it was at most %.2f times the %s bound, so at most %.1f was expected",
			j.name, j.shapes[shape], x.steps, n, smallSizes[len(smallSizes)-1], base.steps, j.grow.name, lim)
	}
	// what the rest of the process allocates meanwhile is spread over the operations
	if lim := j.factor*base.bytes*f + 40 + 100000/x.units; x.bytes > lim && !j.anyBytes {
		t.Failf("%s, %s: %.1f bytes allocated per operation with %d elements; up to %d elements it was at most %.2f times the %s bound, so at most %.1f was expected",
			j.name, j.shapes[shape], x.bytes, n, smallSizes[len(smallSizes)-1], base.bytes, j.grow.name, lim)
	}
	if debugSteps {
		fmt.Fprintf(os.Stderr, "%-60s %-22s n=%5d steps %8.2f (limit %8.2f, ratio %.2f) bytes %9.1f (limit %9.1f)\n", j.name, j.shapes[shape], n, x.steps, j.factor*base.steps*f+j.slack, x.steps/(base.steps*f+1e-9), x.bytes, j.factor*base.bytes*f+40+100000/x.units)
	}
	t.Nontrivial()
}

var debugSteps = os.Getenv("MON_DEBUG") != ""

func init() {
	register(&Prop{
		ID:   "C35",
		Rule: "one stretch of operations on a container of thousands of elements had its executed steps and allocated bytes counted and held against the calibrated growth",
		Assume: []string{
			"cost is counted in executed basic blocks of the library and in bytes allocated; work done inside the Go runtime (copy, append without growth, map access) and inside the caller's comparator is not counted",
			"the limit is 1.25 to 2 times the calibrated cost times the growth allowed, plus a small constant: a slowdown within that is not reported",
		},
		Suites:  []Suite{{Name: "steps", Quick: 2400, Thorough: 30000, Run: runSteps, Cover: true}},
		Require: []string{"stretches of operations measured", "measured as constant", "measured as logarithmic"},
	})
}
