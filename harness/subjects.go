package main

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strconv"
	"strings"

	bloom "github.com/liyue201/gostl/ds/bloomfilter"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/ketama"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/ds/stack"
)

// A subject is a goroutine-safe container with its operations, each giving its
// result as a string, and the sequential model of them over a state string.

type concOp struct {
	name string
	a, b int
}

func (o concOp) String() string { return fmt.Sprintf("%s(%d,%d)", o.name, o.a, o.b) }

type concInst struct {
	do  func(o concOp) string
	ptr []any // the containers whose locks matter
}

type subject struct {
	name  string
	ops   []string // the operations; those listed twice are drawn more often
	write map[string]bool
	mk    func(hook func()) *concInst
	step  func(st string, o concOp) (string, string)
}

// ---- helpers of the models: a state is a string of small numbers ----

func ints(st string) []int {
	out := make([]int, len(st))
	for i := range out {
		out[i] = int(st[i])
	}
	return out
}

func str(xs []int) string {
	b := make([]byte, len(xs))
	for i, x := range xs {
		b[i] = byte(x)
	}
	return string(b)
}

const panicked = "panic"

func b2s(b bool) string { return strconv.FormatBool(b) }

func list(xs []int) string { return strings.Trim(fmt.Sprint(xs), "[]") }

// ---- sequences ----

func queueLike(name string, mk func(hook func()) *concInst, lifo bool, ops []string) *subject {
	return &subject{name: name, ops: ops, mk: mk,
		step: func(st string, o concOp) (string, string) {
			n := len(st)
			switch o.name {
			case "Push":
				return st + string([]byte{byte(o.b)}), ""
			case "Pop", "Front", "Back", "Top":
				if n == 0 {
					return st, panicked
				}
				first := !lifo
				if o.name == "Back" {
					first = false
				}
				x := int(st[0])
				if !first {
					x = int(st[n-1])
				}
				if o.name == "Pop" {
					if first {
						st = st[1:]
					} else {
						st = st[:n-1]
					}
				}
				return st, strconv.Itoa(x)
			case "Size":
				return st, strconv.Itoa(n)
			case "Empty":
				return st, b2s(n == 0)
			case "Clear":
				return "", ""
			case "String":
				return st, list(ints(st))
			}
			panic(o.name)
		}}
}

func trimList(s string) string {
	return strings.Join(strings.Fields(strings.NewReplacer("[", " ", "]", " ", "{", " ", "}", " ", ",", " ").Replace(s)), " ")
}

var queueOps = []string{"Push", "Push", "Push", "Pop", "Pop", "Pop", "Front", "Back", "Size", "Empty", "Clear", "String"}
var stackOps = []string{"Push", "Push", "Push", "Pop", "Pop", "Pop", "Top", "Size", "Empty", "Clear", "String"}

func queueSubject(kind string) *subject {
	mk := func(hook func()) *concInst {
		opts := []queue.Option[int]{queue.WithGoroutineSafe[int]()}
		switch kind {
		case "list":
			opts = append(opts, queue.WithListContainer[int]())
		case "own container":
			opts = append(opts, queue.WithContainer[int](hookedBox(hook)))
		}
		q := queue.New[int](opts...)
		return &concInst{ptr: []any{q}, do: func(o concOp) string {
			switch o.name {
			case "Push":
				q.Push(o.b)
				return ""
			case "Pop":
				return strconv.Itoa(q.Pop())
			case "Front":
				return strconv.Itoa(q.Front())
			case "Back":
				return strconv.Itoa(q.Back())
			case "Size":
				return strconv.Itoa(q.Size())
			case "Empty":
				return b2s(q.Empty())
			case "Clear":
				q.Clear()
				return ""
			case "String":
				return trimList(q.String())
			}
			panic(o.name)
		}}
	}
	return queueLike("queue over "+kind, mk, false, queueOps)
}

func stackSubject(kind string) *subject {
	mk := func(hook func()) *concInst {
		opts := []stack.Option[int]{stack.WithGoroutineSafe[int]()}
		switch kind {
		case "list":
			opts = append(opts, stack.WithListContainer[int]())
		case "own container":
			opts = append(opts, stack.WithContainer[int](hookedBox(hook)))
		}
		s := stack.New[int](opts...)
		return &concInst{ptr: []any{s}, do: func(o concOp) string {
			switch o.name {
			case "Push":
				s.Push(o.b)
				return ""
			case "Pop":
				return strconv.Itoa(s.Pop())
			case "Top":
				return strconv.Itoa(s.Top())
			case "Size":
				return strconv.Itoa(s.Size())
			case "Empty":
				return b2s(s.Empty())
			case "Clear":
				s.Clear()
				return ""
			case "String":
				return trimList(s.String())
			}
			panic(o.name)
		}}
	}
	return queueLike("stack over "+kind, mk, true, stackOps)
}

func hookedBox(hook func()) *boxCont {
	b := &boxCont{}
	if hook != nil {
		b.hook = func(string) { hook() }
	}
	return b
}

func hookedCmp(hook func()) func(a, b int) int {
	if hook == nil {
		return refOrd[int]
	}
	return func(a, b int) int {
		hook()
		return refOrd(a, b)
	}
}

func pqSubject() *subject {
	return &subject{name: "priority queue",
		ops: []string{"Push", "Push", "Push", "Pop", "Pop", "Pop", "Top", "Size", "Empty", "Clear"},
		mk: func(hook func()) *concInst {
			q := priorityqueue.New[E](func(a, b E) int {
				if hook != nil {
					hook()
				}
				return cmpK(a, b)
			}, priorityqueue.WithGoroutineSafe())
			return &concInst{ptr: []any{q}, do: func(o concOp) string {
				switch o.name {
				case "Push":
					q.Push(E{o.a, o.b})
					return ""
				case "Pop":
					return q.Pop().String()
				case "Top":
					return q.Top().String()
				case "Size":
					return strconv.Itoa(q.Size())
				case "Empty":
					return b2s(q.Empty())
				case "Clear":
					q.Clear()
					return ""
				}
				panic(o.name)
			}}
		},
		step: func(st string, o concOp) (string, string) { // pairs (priority, id) by arrival
			switch o.name {
			case "Push":
				return st + str([]int{o.a, o.b}), ""
			case "Pop", "Top":
				if st == "" {
					return st, panicked
				}
				best := 0
				for i := 0; i < len(st); i += 2 {
					if st[i] < st[best] {
						best = i
					}
				}
				r := E{int(st[best]), int(st[best+1])}.String()
				if o.name == "Pop" {
					st = st[:best] + st[best+2:]
				}
				return st, r
			case "Size":
				return st, strconv.Itoa(len(st) / 2)
			case "Empty":
				return st, b2s(st == "")
			case "Clear":
				return "", ""
			}
			panic(o.name)
		}}
}

// ---- keyed containers: the state is sorted pairs (key, value) ----

type kvFace struct {
	hook                                func()
	insert                              func(k, v int)
	get                                 func(k int) (int, error)
	erase                               func(k int) string
	eraseAll                            func(k int)
	contains                            func(k int) bool
	count                               func(k int) int
	size                                func() int
	clear                               func()
	find, lower, upper                  func(k int) bool // is the iterator valid
	begin, first, last                  func() bool
	traverse                            func(f func(k, v int) bool)
	keys                                func() string
	skeys                               func() string
	str                                 func() string
	union, inter, diff, uself, iself, d func() string
}

func (f *kvFace) do(o concOp) string {
	switch o.name {
	case "Insert":
		f.insert(o.a, o.b)
		return ""
	case "Get":
		v, err := f.get(o.a)
		if err != nil {
			return "none"
		}
		return strconv.Itoa(v)
	case "Erase":
		return f.erase(o.a)
	case "EraseAll":
		f.eraseAll(o.a)
		return ""
	case "Contains":
		return b2s(f.contains(o.a))
	case "Count":
		return strconv.Itoa(f.count(o.a))
	case "Size":
		return strconv.Itoa(f.size())
	case "Clear":
		f.clear()
		return ""
	case "Find":
		return b2s(f.find(o.a))
	case "LowerBound":
		return b2s(f.lower(o.a))
	case "UpperBound":
		return b2s(f.upper(o.a))
	case "Begin":
		return b2s(f.begin())
	case "First":
		return b2s(f.first())
	case "Last":
		return b2s(f.last())
	case "Traversal":
		var out []int
		f.traverse(func(k, v int) bool {
			if f.hook != nil {
				f.hook()
			}
			out = append(out, k, v)
			return true
		})
		return list(out)
	case "Keys":
		return f.keys()
	case "StringKeys":
		return f.skeys()
	case "String":
		return f.str()
	case "Union":
		return f.union()
	case "Intersect":
		return f.inter()
	case "Diff":
		return f.diff()
	case "Union with itself":
		return f.uself()
	case "Intersect with itself":
		return f.iself()
	case "Diff with itself":
		return f.d()
	}
	panic(o.name)
}

// otherSet is the fixed operand of the set algebra.
var otherSet = []int{1, 2, 5}

// kvStep is the model: multi keeps equal keys in order of arrival, vals tells
// whether values are observed, one whether Erase takes one of the equal ones.
func kvStep(multi, vals, one, eraseSays bool) func(st string, o concOp) (string, string) {
	return func(st string, o concOp) (string, string) {
		lo, hi := 0, 0 // bounds of key a, in bytes
		for lo < len(st) && int(st[lo]) < o.a {
			lo += 2
		}
		for hi = lo; hi < len(st) && int(st[hi]) == o.a; {
			hi += 2
		}
		keys := func() (out []int) {
			for i := 0; i < len(st); i += 2 {
				out = append(out, int(st[i]))
			}
			return
		}
		switch o.name {
		case "Insert":
			v := o.b
			if !vals {
				v = 0
			}
			if lo < hi && !multi {
				return st[:lo+1] + str([]int{v}) + st[hi:], ""
			}
			return st[:hi] + str([]int{o.a, v}) + st[hi:], ""
		case "Get":
			if lo == hi {
				return st, "none"
			}
			return st, strconv.Itoa(int(st[lo+1]))
		case "Erase", "EraseAll":
			r := ""
			if eraseSays {
				r = b2s(lo < hi)
			}
			if o.name == "Erase" && one && lo < hi {
				hi = lo + 2
			}
			return st[:lo] + st[hi:], r
		case "Contains", "Find":
			return st, b2s(lo < hi)
		case "Count":
			return st, strconv.Itoa((hi - lo) / 2)
		case "Size":
			return st, strconv.Itoa(len(st) / 2)
		case "Clear":
			return "", ""
		case "LowerBound":
			return st, b2s(lo < len(st))
		case "UpperBound":
			return st, b2s(hi < len(st))
		case "Begin", "First", "Last":
			return st, b2s(st != "")
		case "Traversal":
			return st, list(ints(st))
		case "Keys", "StringKeys", "String", "Union with itself", "Intersect with itself":
			return st, list(keys())
		case "Diff with itself":
			return st, ""
		case "Union", "Intersect", "Diff":
			other := map[int]bool{}
			for _, k := range otherSet {
				other[k] = true
			}
			mine := map[int]bool{}
			var out []int
			for _, k := range keys() {
				mine[k] = true
				if o.name == "Union" || other[k] == (o.name == "Intersect") {
					out = append(out, k)
				}
			}
			if o.name == "Union" {
				for _, k := range otherSet {
					if !mine[k] {
						out = append(out, k)
					}
				}
				sort.Ints(out)
			}
			return st, list(out)
		}
		panic(o.name)
	}
}

func mapSubject(multi bool) *subject {
	s := &subject{name: "map", step: kvStep(multi, true, false, false),
		ops: []string{"Insert", "Insert", "Insert", "Erase", "Erase", "Get", "Get", "Contains", "Size", "Clear", "Find", "LowerBound", "UpperBound", "Begin", "First", "Last", "Traversal", "Traversal"}}
	if multi {
		s.name = "multimap"
		s.mk = func(hook func()) *concInst {
			m := treemap.NewMultiMap[int, int](hookedCmp(hook), treemap.WithGoroutineSafe())
			f := &kvFace{hook: hook, insert: m.Insert, get: m.Get, erase: func(k int) string { m.Erase(k); return "" }, contains: m.Contains,
				size: m.Size, clear: m.Clear,
				find:  func(k int) bool { return m.Find(k).IsValid() },
				lower: func(k int) bool { return m.LowerBound(k).IsValid() },
				upper: func(k int) bool { return m.UpperBound(k).IsValid() },
				begin: func() bool { return m.Begin().IsValid() },
				first: func() bool { return m.First().IsValid() },
				last:  func() bool { return m.Last().IsValid() }, traverse: func(f func(k, v int) bool) { m.Traversal(f) }}
			return &concInst{do: f.do, ptr: []any{m}}
		}
		return s
	}
	s.mk = func(hook func()) *concInst {
		m := treemap.New[int, int](hookedCmp(hook), treemap.WithGoroutineSafe())
		f := &kvFace{hook: hook, insert: m.Insert, get: m.Get, erase: func(k int) string { m.Erase(k); return "" }, contains: m.Contains,
			size: m.Size, clear: m.Clear,
			find:  func(k int) bool { return m.Find(k).IsValid() },
			lower: func(k int) bool { return m.LowerBound(k).IsValid() },
			upper: func(k int) bool { return m.UpperBound(k).IsValid() },
			begin: func() bool { return m.Begin().IsValid() },
			first: func() bool { return m.First().IsValid() },
			last:  func() bool { return m.Last().IsValid() }, traverse: func(f func(k, v int) bool) { m.Traversal(f) }}
		return &concInst{do: f.do, ptr: []any{m}}
	}
	return s
}

func setKeys(s *set.Set[int]) string {
	var out []int
	s.Traversal(func(k int) bool { out = append(out, k); return true })
	return list(out)
}

func setSubject(multi bool) *subject {
	if multi {
		return &subject{name: "multiset", step: kvStep(true, false, true, false),
			ops: []string{"Insert", "Insert", "Insert", "Erase", "Erase", "EraseAll", "Contains", "Count", "Count", "Size", "Clear", "Find", "LowerBound", "UpperBound", "Begin", "First", "Last", "Traversal", "String"},
			mk: func(hook func()) *concInst {
				s := set.NewMultiSet[int](hookedCmp(hook), set.WithGoroutineSafe())
				f := &kvFace{hook: hook, insert: func(k, v int) { s.Insert(k) }, erase: func(k int) string { s.Erase(k); return "" }, eraseAll: s.EraseAll,
					contains: s.Contains, count: s.Count, size: s.Size, clear: s.Clear,
					find:     func(k int) bool { return s.Find(k).IsValid() },
					lower:    func(k int) bool { return s.LowerBound(k).IsValid() },
					upper:    func(k int) bool { return s.UpperBound(k).IsValid() },
					begin:    func() bool { return s.Begin().IsValid() },
					first:    func() bool { return s.First().IsValid() },
					last:     func() bool { return s.Last().IsValid() },
					traverse: func(f func(k, v int) bool) { s.Traversal(func(k int) bool { return f(k, 0) }) },
					str:      func() string { return trimList(s.String()) }}
				return &concInst{do: f.do, ptr: []any{s}}
			}}
	}
	return &subject{name: "set", step: kvStep(false, false, false, false),
		ops: []string{"Insert", "Insert", "Insert", "Insert", "Erase", "Erase", "Erase", "Contains", "Contains", "Size", "Clear", "Find", "LowerBound", "UpperBound", "Begin", "First", "Last", "Traversal", "String",
			"Union", "Intersect", "Diff", "Union with itself", "Intersect with itself", "Diff with itself"},
		mk: func(hook func()) *concInst {
			s := set.New[int](hookedCmp(hook), set.WithGoroutineSafe())
			o := set.New[int](hookedCmp(hook), set.WithGoroutineSafe())
			for _, k := range otherSet {
				o.Insert(k)
			}
			f := &kvFace{hook: hook, insert: func(k, v int) { s.Insert(k) }, erase: func(k int) string { s.Erase(k); return "" },
				contains: s.Contains, size: s.Size, clear: s.Clear,
				find:     func(k int) bool { return s.Find(k).IsValid() },
				lower:    func(k int) bool { return s.LowerBound(k).IsValid() },
				upper:    func(k int) bool { return s.UpperBound(k).IsValid() },
				begin:    func() bool { return s.Begin().IsValid() },
				first:    func() bool { return s.First().IsValid() },
				last:     func() bool { return s.Last().IsValid() },
				traverse: func(f func(k, v int) bool) { s.Traversal(func(k int) bool { return f(k, 0) }) },
				str:      func() string { return trimList(s.String()) },
				union:    func() string { return setKeys(s.Union(o)) },
				inter:    func() string { return setKeys(s.Intersect(o)) },
				diff:     func() string { return setKeys(s.Diff(o)) },
				uself:    func() string { return setKeys(s.Union(s)) },
				iself:    func() string { return setKeys(s.Intersect(s)) },
				d:        func() string { return setKeys(s.Diff(s)) },
			}
			return &concInst{do: f.do, ptr: []any{s, o}}
		}}
}

func skipSubject() *subject {
	return &subject{name: "skiplist", step: kvStep(false, true, false, true),
		ops: []string{"Insert", "Insert", "Insert", "Erase", "Erase", "Get", "Get", "Size", "Traversal", "Keys"},
		mk: func(hook func()) *concInst {
			l := skiplist.New[int, int](hookedCmp(hook), skiplist.WithGoroutineSafe(), skiplist.WithMaxLevel(4))
			f := &kvFace{hook: hook, insert: l.Insert, get: l.Get, erase: func(k int) string { return b2s(l.Remove(k)) }, size: l.Len,
				traverse: func(f func(k, v int) bool) { l.Traversal(f) },
				keys:     func() string { return list(l.Keys()) }}
			return &concInst{do: f.do, ptr: []any{l}}
		}}
}

// hamtKey: keys 0-2 share their whole hash, 3 is the empty key, others are plain.
func hamtKey(k int) hamt.Key {
	switch {
	case k < 3:
		return append(append(hamt.Key(nil), zeroKey...), make([]byte, k)...)
	case k == 3:
		return hamt.Key{}
	}
	if k > 255 {
		return hamt.Key{byte(k), byte(k >> 8)}
	}
	return hamt.Key{byte(k)}
}

var hamtName = func() map[string]int {
	m := map[string]int{}
	for k := 0; k < 256; k++ {
		m[string(hamtKey(k))] = k
	}
	return m
}()

func hamtSubject() *subject {
	return &subject{name: "hamt", step: kvStep(false, true, false, true),
		ops: []string{"Insert", "Insert", "Insert", "Erase", "Erase", "Get", "Get", "Traversal", "Keys", "StringKeys"},
		mk: func(hook func()) *concInst {
			h := hamt.New[int](hamt.WithGoroutineSafe())
			name := func(k string) int {
				n, ok := hamtName[k]
				if !ok {
					return 200
				}
				return n
			}
			f := &kvFace{insert: func(k, v int) { h.Insert(hamtKey(k), v) },
				get:   func(k int) (int, error) { return h.Get(hamtKey(k)) },
				erase: func(k int) string { return b2s(h.Erase(hamtKey(k))) },
				traverse: func(f func(k, v int) bool) {
					var ps [][2]int
					h.Traversal(func(k hamt.Key, v int) bool {
						if hook != nil {
							hook()
						}
						ps = append(ps, [2]int{name(string(k)), v})
						return true
					})
					sort.Slice(ps, func(i, j int) bool { return ps[i][0] < ps[j][0] })
					for _, p := range ps {
						f(p[0], p[1])
					}
				},
				keys: func() string {
					var out []int
					for _, k := range h.Keys() {
						out = append(out, name(string(k)))
					}
					sort.Ints(out)
					return list(out)
				},
				skeys: func() string {
					var out []int
					for _, k := range h.StringKeys() {
						out = append(out, name(k))
					}
					sort.Ints(out)
					return list(out)
				}}
			return &concInst{do: f.do, ptr: []any{h}}
		}}
}

// ---- bloom filter and ring: the state is the set of values or nodes; what a
// state answers is taken from an instance used by one goroutine ----

func maskNames(st string, name func(int) string) (out []string) {
	for _, x := range ints(st) {
		out = append(out, name(x))
	}
	return
}

func addTo(st string, a int) string {
	for i := range st {
		if int(st[i]) == a {
			return st
		}
		if int(st[i]) > a {
			return st[:i] + str([]int{a}) + st[i:]
		}
	}
	return st + str([]int{a})
}

func removeFrom(st string, a int) string {
	for i := range st {
		if int(st[i]) == a {
			return st[:i] + st[i+1:]
		}
	}
	return st
}

func digest(b []byte) string {
	h := fnv.New64a()
	h.Write(b)
	return strconv.FormatUint(h.Sum64(), 16)
}

func bloomSubject(ctor int) *subject {
	val := func(a int) string { return "v" + strconv.Itoa(a) }
	mkf := func(safe bool) *bloom.BloomFilter {
		var opts []bloom.Option
		if safe {
			opts = append(opts, bloom.WithGoroutineSafe())
		}
		switch ctor {
		case 0:
			return bloom.New(23, 2, opts...)
		case 1:
			return bloom.NewWithEstimates(8, 0.3, opts...)
		}
		return bloom.NewFromData(bloom.New(40, 9).Data(), opts...)
	}
	memo := map[string]string{}
	return &subject{name: []string{"bloom", "bloom from estimates", "bloom from data"}[ctor],
		ops: []string{"Add", "Add", "Contains", "Contains", "Data"},
		mk: func(hook func()) *concInst {
			f := mkf(true)
			return &concInst{ptr: []any{f}, do: func(o concOp) string {
				switch o.name {
				case "Add":
					f.Add(val(o.a))
					return ""
				case "Contains":
					return b2s(f.Contains(val(o.a)))
				case "Data":
					return digest(f.Data())
				}
				panic(o.name)
			}}
		},
		step: func(st string, o concOp) (string, string) {
			if o.name == "Add" {
				return addTo(st, o.a), ""
			}
			q := o.name + st + "/"
			if o.name == "Contains" {
				q += strconv.Itoa(o.a)
			}
			r, ok := memo[q]
			if !ok {
				f := mkf(false)
				for _, v := range maskNames(st, val) {
					f.Add(v)
				}
				if o.name == "Contains" {
					r = b2s(f.Contains(val(o.a)))
				} else {
					r = digest(f.Data())
				}
				memo[q] = r
			}
			return st, r
		}}
}

func ketamaSubject() *subject {
	node := func(a int) string { return "n" + strconv.Itoa(a) }
	memo := map[string]string{}
	get := func(k *ketama.Ketama, a int) string {
		n, ok := k.Get("key" + strconv.Itoa(a))
		return fmt.Sprintf("%s %v", n, ok)
	}
	return &subject{name: "ketama",
		ops: []string{"Add", "Add", "Add two", "Remove", "Remove", "Remove two", "Get", "Get", "Get", "Empty"},
		mk: func(hook func()) *concInst {
			k := ketama.New(ketama.WithGoroutineSafe(), ketama.WithReplicas(3))
			return &concInst{ptr: []any{k}, do: func(o concOp) string {
				switch o.name {
				case "Add":
					k.Add(node(o.a))
					return ""
				case "Add two":
					k.Add(node(o.a), node((o.a+1)%6))
					return ""
				case "Remove":
					k.Remove(node(o.a))
					return ""
				case "Remove two":
					k.Remove(node(o.a), node((o.a+1)%6))
					return ""
				case "Get":
					return get(k, o.b)
				case "Empty":
					return b2s(k.Empty())
				}
				panic(o.name)
			}}
		},
		step: func(st string, o concOp) (string, string) {
			switch o.name {
			case "Add":
				return addTo(st, o.a), ""
			case "Add two":
				return addTo(addTo(st, o.a), (o.a+1)%6), ""
			case "Remove":
				return removeFrom(st, o.a), ""
			case "Remove two":
				return removeFrom(removeFrom(st, o.a), (o.a+1)%6), ""
			case "Empty":
				return st, b2s(st == "")
			}
			q := fmt.Sprintf("%s/%d", st, o.b)
			r, ok := memo[q]
			if !ok {
				k := ketama.New(ketama.WithReplicas(3))
				k.Add(maskNames(st, node)...)
				r = get(k, o.b)
				memo[q] = r
			}
			return st, r
		}}
}

func allSubjects() []*subject {
	ss := []*subject{
		queueSubject("deque"), queueSubject("list"), queueSubject("own container"),
		stackSubject("deque"), stackSubject("list"), stackSubject("own container"),
		pqSubject(), mapSubject(false), mapSubject(true), setSubject(false), setSubject(true),
		skipSubject(), hamtSubject(), bloomSubject(0), bloomSubject(1), bloomSubject(2), ketamaSubject(),
	}
	return ss
}
