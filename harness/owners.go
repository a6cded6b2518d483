package main

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"sort"
	"strconv"
	gosync "sync"
	"sync/atomic"

	bloom "github.com/liyue201/gostl/ds/bloomfilter"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/ketama"
	treemap "github.com/liyue201/gostl/ds/map"
	"github.com/liyue201/gostl/ds/priorityqueue"
	"github.com/liyue201/gostl/ds/queue"
	"github.com/liyue201/gostl/ds/set"
	"github.com/liyue201/gostl/ds/skiplist"
	"github.com/liyue201/gostl/ds/stack"
)

// ---- C27 long histories: goroutines that each own a part of the contents ----
//
// A search for an order of thousands of operations is out of reach; when every
// key has one owner, each owner knows what its keys hold at all times, and when
// every element of a sequence is unique, the times of its push and pop decide.

// team runs workers on threads; the first thing one of them reports stops all.
type team struct {
	t     *T
	what  string
	clock atomic.Int64
	noise atomic.Uint64
	last  atomic.Int64 // the worker that began the last operation
	turns atomic.Int64
	mode  int
	seed  uint64
	stop  atomic.Bool
	once  gosync.Once
	err   string
}

func newTeam(t *T) *team {
	return &team{t: t, mode: t.Intn(4), seed: t.R.Uint64()}
}

func (g *team) hook() {
	if g.mode == 0 {
		return
	}
	x := mix(g.seed, g.noise.Add(1))
	switch {
	case x%31 == 0 || g.mode == 3 && x%3 == 0:
		runtime.Gosched()
	case x%37 == 0 && g.mode == 2:
		for i := 0; i < int(x>>8%400); i++ {
			_ = g.noise.Load()
		}
	}
}

// between lets the others get their turn between two operations.
func (g *team) between(w int, r *rand.Rand) {
	g.t.Tick()
	if g.last.Swap(int64(w)) != int64(w) {
		g.turns.Add(1)
	}
	for i := r.IntN(100); i > 0; i-- {
		_ = g.noise.Load()
	}
	if r.IntN(8) == 0 {
		runtime.Gosched()
	}
}

// tally bounds a size from when insertions and removals began and ended.
type tally struct{ inBegun, inEnded, outBegun, outEnded atomic.Int64 }

// sized returns what size says, and whether it ever was so during the call.
func (y *tally) sized(size func() int) (int, bool) {
	in, out := y.inEnded.Load(), y.outEnded.Load()
	s := int64(size())
	return int(s), in-y.outBegun.Load() <= s && s <= y.inBegun.Load()-out
}

func (g *team) now() int64 { return g.clock.Add(1) }

func (g *team) fail(format string, args ...any) {
	g.once.Do(func() {
		g.err = fmt.Sprintf(format, args...)
		g.stop.Store(true)
	})
}

func (g *team) run(workers []func(r *rand.Rand)) {
	var wg gosync.WaitGroup
	var ready atomic.Int64
	for w, f := range workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					g.fail("worker %d: panic: %v", w, r)
				}
			}()
			ready.Add(1)
			for spin := 0; ready.Load() < int64(len(workers)); spin++ {
				if spin%100 == 99 {
					runtime.Gosched()
				}
			}
			f(rand.New(rand.NewPCG(g.seed, uint64(w))))
		}()
	}
	wg.Wait()
	g.t.CountN("turns of owners", int(g.turns.Load()))
	if g.err != "" {
		g.t.Failf("%s: %s", g.what, g.err)
	}
}

// ownSteps: most histories are of hundreds of operations, some of thousands.
func ownSteps(t *T) (workers, n, keys int) {
	workers = 2 + t.Intn(3)
	n = []int{60, 300, 300, 1500}[t.Intn(4)]
	keys = []int{2, 5, 12, 60, 400, 1500}[t.Intn(6)]
	return
}

// ownKv is a keyed container in use by several owners.
type ownKv struct {
	name     string
	multi    bool // equal keys are kept
	vals     bool
	one      bool // erase takes one of the equal ones
	insert   func(k, v int)
	get      func(k int) (int, error)
	erase    func(k int) string // "" where it tells nothing
	eraseAll func(k int)
	contains func(k int) bool
	count    func(k int) int
	valid    []func(k int) bool // iterators that are valid when k is there
	size     func() int
	walk     []func(f func(k, v int) bool) // v is -1 where there are no values
	sorted   bool
}

func ownKvs(t *T, which int, hook func()) *ownKv {
	cmp := hookedCmp(hook)
	keysOnly := func(ks func() []int) func(f func(k, v int) bool) {
		return func(f func(k, v int) bool) {
			for _, k := range ks() {
				if !f(k, -1) {
					return
				}
			}
		}
	}
	switch which {
	case 0:
		m := treemap.New[int, int](cmp, treemap.WithGoroutineSafe())
		return &ownKv{name: "map", vals: true, sorted: true, insert: m.Insert, get: m.Get, contains: m.Contains, size: m.Size,
			erase: func(k int) string { m.Erase(k); return "" },
			valid: []func(k int) bool{
				func(k int) bool { return m.Find(k).IsValid() },
				func(k int) bool { return m.LowerBound(k).IsValid() },
				func(k int) bool { return m.UpperBound(k - 1).IsValid() },
				func(k int) bool { return m.Begin().IsValid() && m.First().IsValid() && m.Last().IsValid() }},
			walk: []func(f func(k, v int) bool){func(f func(k, v int) bool) { m.Traversal(f) }}}
	case 1:
		m := treemap.NewMultiMap[int, int](cmp, treemap.WithGoroutineSafe())
		return &ownKv{name: "multimap", vals: true, multi: true, sorted: true, insert: m.Insert, get: m.Get, contains: m.Contains, size: m.Size,
			erase: func(k int) string { m.Erase(k); return "" },
			valid: []func(k int) bool{
				func(k int) bool { return m.Find(k).IsValid() },
				func(k int) bool { return m.LowerBound(k).IsValid() },
				func(k int) bool { return m.UpperBound(k - 1).IsValid() },
				func(k int) bool { return m.Begin().IsValid() && m.First().IsValid() && m.Last().IsValid() }},
			walk: []func(f func(k, v int) bool){func(f func(k, v int) bool) { m.Traversal(f) }}}
	case 2:
		s := set.New[int](cmp, set.WithGoroutineSafe())
		other := set.New[int](cmp, set.WithGoroutineSafe())
		return &ownKv{name: "set", sorted: true, insert: func(k, v int) { s.Insert(k) }, contains: s.Contains, size: s.Size,
			erase: func(k int) string { s.Erase(k); return "" },
			valid: []func(k int) bool{
				func(k int) bool { return s.Find(k).IsValid() },
				func(k int) bool { return s.LowerBound(k).IsValid() },
				func(k int) bool { return s.UpperBound(k - 1).IsValid() },
				func(k int) bool { return s.Begin().IsValid() && s.First().IsValid() && s.Last().IsValid() }},
			walk: []func(f func(k, v int) bool){
				func(f func(k, v int) bool) { s.Traversal(func(k int) bool { return f(k, -1) }) },
				keysOnly(func() []int { return numbers(s.String()) }),
				func(f func(k, v int) bool) { s.Union(other).Traversal(func(k int) bool { return f(k, -1) }) },
				func(f func(k, v int) bool) { other.Union(s).Traversal(func(k int) bool { return f(k, -1) }) },
				func(f func(k, v int) bool) { s.Intersect(s).Traversal(func(k int) bool { return f(k, -1) }) },
				func(f func(k, v int) bool) { s.Diff(other).Traversal(func(k int) bool { return f(k, -1) }) }}}
	case 3:
		s := set.NewMultiSet[int](cmp, set.WithGoroutineSafe())
		return &ownKv{name: "multiset", multi: true, one: true, sorted: true, insert: func(k, v int) { s.Insert(k) }, contains: s.Contains, count: s.Count, size: s.Size,
			erase: func(k int) string { s.Erase(k); return "" }, eraseAll: s.EraseAll,
			valid: []func(k int) bool{
				func(k int) bool { return s.Find(k).IsValid() },
				func(k int) bool { return s.LowerBound(k).IsValid() },
				func(k int) bool { return s.UpperBound(k - 1).IsValid() },
				func(k int) bool { return s.Begin().IsValid() && s.First().IsValid() && s.Last().IsValid() }},
			walk: []func(f func(k, v int) bool){
				func(f func(k, v int) bool) { s.Traversal(func(k int) bool { return f(k, -1) }) },
				keysOnly(func() []int { return numbers(s.String()) })}}
	case 4:
		h := hamt.New[int](hamt.WithGoroutineSafe())
		// the keys below 12 share their whole hash
		key := func(k int) hamt.Key {
			if k < 12 {
				return append(append(hamt.Key(nil), zeroKey...), make([]byte, k)...)
			}
			return hamt.Key(strconv.Itoa(k))
		}
		num := func(k string) int {
			if len(k) >= len(zeroKey) && k[:len(zeroKey)] == string(zeroKey) {
				return len(k) - len(zeroKey)
			}
			n, err := strconv.Atoi(k)
			if err != nil {
				return -1
			}
			return n
		}
		return &ownKv{name: "hamt", vals: true, insert: func(k, v int) { h.Insert(key(k), v) }, get: func(k int) (int, error) { return h.Get(key(k)) },
			erase: func(k int) string { return b2s(h.Erase(key(k))) },
			walk: []func(f func(k, v int) bool){
				func(f func(k, v int) bool) {
					h.Traversal(func(k hamt.Key, v int) bool { hook(); return f(num(string(k)), v) })
				},
				keysOnly(func() (out []int) {
					for _, k := range h.Keys() {
						out = append(out, num(string(k)))
					}
					return
				}),
				keysOnly(func() (out []int) {
					for _, k := range h.StringKeys() {
						out = append(out, num(k))
					}
					return
				})}}
	}
	l := skiplist.New[int, int](cmp, skiplist.WithGoroutineSafe(), skiplist.WithMaxLevel(1+t.Intn(12)))
	return &ownKv{name: "skiplist", vals: true, sorted: true, insert: l.Insert, get: l.Get, size: l.Len,
		erase: func(k int) string { return b2s(l.Remove(k)) },
		walk: []func(f func(k, v int) bool){
			func(f func(k, v int) bool) { l.Traversal(f) },
			keysOnly(l.Keys)}}
}

func numbers(s string) (out []int) {
	n, in := 0, false
	for i := 0; i <= len(s); i++ {
		if i < len(s) && s[i] >= '0' && s[i] <= '9' {
			n, in = n*10+int(s[i]-'0'), true
		} else if in {
			out = append(out, n)
			n, in = 0, false
		}
	}
	return
}

// ownVer is what one key held: n elements, the first of value v, from the
// beginning of the operation that made it so until over, the end of the next one.
type ownVer struct {
	n, v       int
	from, over int64
}

// ownRead is what a goroutine that does not own a key read of it.
type ownRead struct {
	k         int
	how       byte // g: Get; n: Count; c: Contains
	n, v      int
	call, ret int64
}

// fits tells whether the read may have seen the version.
func (x *ownRead) fits(y *ownVer) bool {
	switch {
	case y.from > x.ret || y.over < x.call:
		return false
	case x.how == 'n':
		return x.n == y.n
	}
	return (x.n > 0) == (y.n > 0) && (x.how == 'c' || x.n == 0 || x.v == y.v)
}

// judgeReads: each read saw a version of its key that was there during the read,
// none an older one than a read that had ended before it began.
func judgeReads(vers []ownVer, reads []ownRead) string {
	sort.Slice(reads, func(i, j int) bool { return reads[i].call < reads[j].call })
	saw := make([]int, len(reads))
	for i := range reads {
		x := &reads[i]
		least := 0
		for j := range reads[:i] {
			if reads[j].ret < x.call {
				least = max(least, saw[j])
			}
		}
		for least < len(vers) && !x.fits(&vers[least]) {
			least++
		}
		if least == len(vers) {
			return fmt.Sprintf("a read of the key %d during [%d,%d] by a goroutine that does not own it saw %d elements, value %d (%c): nothing it was at that time, or older than what an earlier read saw", x.k, x.call, x.ret, x.n, x.v, x.how)
		}
		saw[i] = least
	}
	return ""
}

func runOwnKv(t *T, which int) {
	g := newTeam(t)
	c := ownKvs(t, which, g.hook)
	g.what = c.name
	workers, n, keys := ownSteps(t)
	t.Op("owners of keys", c.name, workers, n, keys, g.mode)
	own := make([]map[int][]int, workers) // by key, the values by arrival
	tokens := make([]int, workers)        // the key at which the owner's token is
	var total tally
	var bodies []func(r *rand.Rand)
	vers := make([][]ownVer, 2*workers*keys)
	for k := range vers {
		vers[k] = []ownVer{{over: 1 << 62}}
	}
	became := func(w, k int, call int64) {
		v := ownVer{n: len(own[w][k]), from: call, over: 1 << 62}
		if v.n > 0 {
			v.v = own[w][k][0]
		}
		vers[k][len(vers[k])-1].over = g.now()
		vers[k] = append(vers[k], v)
	}
	put := func(w, k, v int) {
		mine := own[w]
		call := g.now()
		defer became(w, k, call)
		if c.multi || len(mine[k]) == 0 {
			total.inBegun.Add(1)
			c.insert(k, v)
			total.inEnded.Add(1)
			mine[k] = append(mine[k], v)
		} else {
			c.insert(k, v)
			mine[k][0] = v
		}
	}
	// an owner has half of its keys to itself and moves a token over the others:
	// it puts it at a new key before it takes it from the old one
	for w := range own {
		own[w] = map[int][]int{}
		tokens[w] = (2*t.Intn(keys)+1)*workers + w
		put(w, tokens[w], 0)
	}
	if keys >= 60 && t.Chance(2) {
		for k := 0; k < 2*workers*keys; k++ {
			if k/workers%2 == 0 {
				put(k%workers, k, 1)
			}
		}
	}
	mover := t.Intn(4) // one of them mostly moves its token
	// listing compares a traversal with what worker w holds; all: with what all hold
	listing := func(w int, walk func(f func(k, v int) bool), all bool) string {
		seen := map[int]int{}
		at := make([]int, workers)
		last, msg := -1, ""
		walk(func(k, v int) bool {
			if k < 0 || k >= 2*workers*keys {
				msg = fmt.Sprintf("the key %d nobody inserted", k)
				return false
			}
			if c.sorted {
				if k < last || k == last && !c.multi {
					msg = fmt.Sprintf("the key %d after %d", k, last)
					return false
				}
				last = k
			}
			o := k % workers
			if k/workers%2 == 1 {
				at[o]++
			}
			if o != w && !all {
				return true
			}
			vs := own[o][k]
			i := seen[k]
			seen[k]++
			if i >= len(vs) {
				msg = fmt.Sprintf("the key %d %d times, it is there %d times", k, i+1, len(vs))
			} else if c.vals && v != -1 && vs[i] != v {
				msg = fmt.Sprintf("the value %d for the key %d, want %d", v, k, vs[i])
			}
			return msg == ""
		})
		if msg != "" {
			return msg
		}
		for o := range own {
			if at[o] < 1 || at[o] > 2 {
				return fmt.Sprintf("the token of worker %d at %d keys, it always was at one or two", o, at[o])
			}
			if o == w || all {
				for k, vs := range own[o] {
					if seen[k] != len(vs) {
						return fmt.Sprintf("the key %d %d times, it is there %d times", k, seen[k], len(vs))
					}
				}
			}
		}
		return ""
	}
	reads := make([][]ownRead, workers)
	for w := 0; w < workers; w++ {
		bodies = append(bodies, func(r *rand.Rand) {
			mine := own[w]
			foreign := func() {
				x := ownRead{k: r.IntN(2*keys)*workers + (w+1+r.IntN(workers-1))%workers, call: g.now()}
				var ok bool
				switch j := r.IntN(3); {
				case c.get != nil && (j > 0 || c.contains == nil):
					v, err := c.get(x.k)
					x.how, x.v, ok = 'g', v, err == nil
				case c.count != nil && j > 0:
					x.how, x.n = 'n', c.count(x.k)
				default:
					x.how, ok = 'c', c.contains(x.k)
				}
				if ok {
					x.n = 1
				}
				x.ret = g.now()
				reads[w] = append(reads[w], x)
			}
			drop := func(k int, one bool) {
				vs := mine[k]
				had := len(vs)
				gone := had
				if one && had > 0 {
					gone = 1
				}
				call := g.now()
				total.outBegun.Add(int64(gone))
				var res string
				if one || c.eraseAll == nil {
					res = c.erase(k)
				} else {
					c.eraseAll(k)
				}
				total.outEnded.Add(int64(gone))
				if gone == had {
					delete(mine, k)
				} else {
					mine[k] = vs[1:]
				}
				became(w, k, call)
				if res != "" && res != b2s(had > 0) {
					g.fail("worker %d: erasing its key %d, there %d times: %s", w, k, had, res)
				}
			}
			grow := 2 + r.IntN(5)
			for i := 0; i < n && !g.stop.Load(); i++ {
				g.between(w, r)
				k := 2*r.IntN(keys)*workers + w
				x := r.IntN(16)
				if w == mover && r.IntN(3) > 0 {
					x = 9
				}
				switch {
				case x < grow:
					put(w, k, w<<20|i)
				case x < 7:
					drop(k, c.one && r.IntN(4) > 0)
				case x == 7 && r.IntN(8+keys/10) == 0: // take out everything it holds
					for k := w; k < 2*workers*keys; k += 2 * workers {
						if len(mine[k]) > 0 {
							drop(k, false)
						}
					}
					grow = 2 + r.IntN(5)
				case x == 8 && r.IntN(1+keys/60) == 0:
					walk := c.walk[r.IntN(len(c.walk))]
					if msg := listing(w, walk, false); msg != "" {
						g.fail("a listing by worker %d shows %s", w, msg)
					}
				case x == 8 && keys < 60 || x == 9 && (w == mover || r.IntN(3) == 0):
					to := (2*r.IntN(keys)+1)*workers + w
					if from := tokens[w]; to != from {
						put(w, to, i)
						tokens[w] = to
						drop(from, false)
					}
				case x == 9 && c.size != nil:
					if s, ok := total.sized(c.size); !ok {
						g.fail("worker %d: size %d, which it never was during the call", w, s)
					}
				case x == 10 && len(c.valid) > 0:
					j := r.IntN(len(c.valid))
					if ok := c.valid[j](k); !ok && len(mine[k]) > 0 || ok && j == 0 && len(mine[k]) == 0 {
						g.fail("worker %d: iterator %d for its key %d, there %d times: valid %v", w, j, k, len(mine[k]), ok)
					}
				case x == 11 && c.count != nil:
					if m := c.count(k); m != len(mine[k]) {
						g.fail("worker %d: counts its key %d %d times, it is there %d times", w, k, m, len(mine[k]))
					}
				case x == 12 || x == 13 && r.IntN(2) == 0:
					foreign()
				case x < 15 && c.get != nil:
					v, err := c.get(k)
					if (err == nil) != (len(mine[k]) > 0) || err == nil && v != mine[k][0] {
						g.fail("worker %d: gets %v, %v for its key %d of %v", w, v, err, k, mine[k])
					}
				case c.contains != nil:
					if got := c.contains(k); got != (len(mine[k]) > 0) {
						g.fail("worker %d: contains its key %d: %v, it is there %d times", w, k, got, len(mine[k]))
					}
				}
			}
		})
	}
	g.run(bodies)
	byKey := map[int][]ownRead{}
	for w := range reads {
		t.CountN("reads of keys of others", len(reads[w]))
		for _, x := range reads[w] {
			byKey[x.k] = append(byKey[x.k], x)
		}
	}
	for k := range vers {
		if msg := judgeReads(vers[k], byKey[k]); msg != "" {
			t.Failf("%s: %s", c.name, msg)
		}
	}
	for i, walk := range c.walk {
		if msg := listing(0, walk, true); msg != "" {
			t.Failf("%s: listing %d, after all workers ended, shows %s", c.name, i, msg)
		}
	}
	if c.size != nil {
		if s, ok := total.sized(c.size); !ok {
			t.Failf("%s: size %d after all workers ended, want %d", c.name, s, total.inEnded.Load()-total.outEnded.Load())
		}
	}
	t.CountN("operations by owners", workers*n)
	t.Count("long histories of " + c.name)
}

// ---- values and nodes ----

func runOwnBloom(t *T) {
	workers, n, _ := ownSteps(t)
	m, k := uint64(64+t.Intn(20000)), uint64(1+t.Intn(7))
	mk := func(opts ...bloom.Option) *bloom.BloomFilter {
		return bloom.New(m, k, opts...)
	}
	f := mk(bloom.WithGoroutineSafe())
	if t.Chance(3) {
		f = bloom.NewFromData(f.Data(), bloom.WithGoroutineSafe())
	}
	g := newTeam(t)
	g.what = "bloom"
	t.Op("owners of values", workers, n, m, k)
	val := func(w, i int) string { return strconv.Itoa(w) + "/" + strconv.Itoa(i) }
	added := make([][]int, workers)
	var bodies []func(r *rand.Rand)
	for w := 0; w < workers; w++ {
		bodies = append(bodies, func(r *rand.Rand) {
			for i := 0; i < n && !g.stop.Load(); i++ {
				g.between(w, r)
				switch r.IntN(4) {
				case 0:
					f.Add(val(w, i))
					added[w] = append(added[w], i)
				case 1:
					if r.IntN(20) == 0 {
						x := bloom.NewFromData(f.Data())
						for _, j := range added[w] {
							if !x.Contains(val(w, j)) {
								g.fail("worker %d: the data it took lack the value %s it had added", w, val(w, j))
								return
							}
						}
					}
				default:
					if len(added[w]) > 0 {
						j := added[w][r.IntN(len(added[w]))]
						if !f.Contains(val(w, j)) {
							g.fail("worker %d: the value %s it had added is not contained", w, val(w, j))
						}
					}
				}
			}
		})
	}
	g.run(bodies)
	x := mk()
	for w := range added {
		for _, i := range added[w] {
			x.Add(val(w, i))
		}
	}
	if digest(x.Data()) != digest(f.Data()) {
		t.Failf("bloom(%d,%d): the data after all workers ended differ from those of a filter that was given the same values by one goroutine", m, k)
	}
	t.CountN("operations by owners", workers*n)
	t.Count("long histories of bloom")
}

func runOwnKetama(t *T) {
	workers, n, _ := ownSteps(t)
	nodes := 1 + t.Intn(8)
	reps := 1 + t.Intn(12)
	mk := func(opts ...ketama.Option) *ketama.Ketama {
		return ketama.New(append(opts, ketama.WithReplicas(reps))...)
	}
	f := mk(ketama.WithGoroutineSafe())
	g := newTeam(t)
	g.what = "ketama"
	t.Op("owners of nodes", workers, n, nodes, reps)
	name := func(w, i int) string { return "node" + strconv.Itoa(w) + "-" + strconv.Itoa(i) }
	owner := map[string][2]int{}
	in := make([][]bool, workers)
	for w := range in {
		in[w] = make([]bool, nodes)
		for i := range in[w] {
			owner[name(w, i)] = [2]int{w, i}
		}
	}
	var bodies []func(r *rand.Rand)
	for w := 0; w < workers; w++ {
		bodies = append(bodies, func(r *rand.Rand) {
			held := 0
			for i := 0; i < n && !g.stop.Load(); i++ {
				g.between(w, r)
				j := r.IntN(nodes)
				switch r.IntN(5) {
				case 0:
					f.Add(name(w, j))
					if !in[w][j] {
						held++
					}
					in[w][j] = true
				case 1:
					f.Remove(name(w, j))
					if in[w][j] {
						held--
					}
					in[w][j] = false
				case 2:
					if f.Empty() && held > 0 {
						g.fail("worker %d: empty while it has %d nodes", w, held)
					}
				default:
					key := strconv.Itoa(r.IntN(1 << 30))
					node, ok := f.Get(key)
					if !ok {
						if held > 0 {
							g.fail("worker %d: no node for %q while it has %d nodes", w, key, held)
						}
					} else if o, known := owner[node]; !known || o[0] == w && !in[w][o[1]] {
						g.fail("worker %d: %q goes to the node %q that is not there", w, key, node)
					}
				}
			}
		})
	}
	g.run(bodies)
	x := mk()
	for w := range in {
		for i, ok := range in[w] {
			if ok {
				x.Add(name(w, i))
			}
		}
	}
	for i := 0; i < 200; i++ {
		key := strconv.Itoa(i * 7919)
		a, ok := f.Get(key)
		if b, ok2 := x.Get(key); a != b || ok != ok2 {
			t.Failf("ketama: after all workers ended %q goes to %q, %v, and to %q, %v on a ring that was given the same nodes by one goroutine", key, a, ok, b, ok2)
		}
	}
	t.CountN("operations by owners", workers*n)
	t.Count("long histories of ketama")
}

// ---- sequences of unique elements ----

type ownSeq struct {
	name  string
	order byte // f: first in first out; l: last in; p: by priority
	push  func(v E)
	pop   func() E
	peeks []func() E // at what Pop would take, and at the other end
	size  func() int
	empty func() bool
	list  func() []int
}

func ownSeqs(t *T, which int, hook func()) *ownSeq {
	kind := t.Intn(3)
	prio := func(v E) int { return v.ID*8 + v.K } // both in one number
	elem := func(x int) E { return E{x % 8, x / 8} }
	switch which {
	case 0:
		opts := []queue.Option[int]{queue.WithGoroutineSafe[int]()}
		if kind == 1 {
			opts = append(opts, queue.WithListContainer[int]())
		} else if kind == 2 {
			opts = append(opts, queue.WithContainer[int](hookedBox(hook)))
		}
		q := queue.New[int](opts...)
		return &ownSeq{name: "queue", order: 'f', push: func(v E) { q.Push(prio(v)) }, pop: func() E { return elem(q.Pop()) },
			peeks: []func() E{func() E { return elem(q.Front()) }, func() E { return elem(q.Back()) }}, size: q.Size, empty: q.Empty,
			list: func() []int { return numbers(q.String()) }}
	case 1:
		opts := []stack.Option[int]{stack.WithGoroutineSafe[int]()}
		if kind == 1 {
			opts = append(opts, stack.WithListContainer[int]())
		} else if kind == 2 {
			opts = append(opts, stack.WithContainer[int](hookedBox(hook)))
		}
		s := stack.New[int](opts...)
		return &ownSeq{name: "stack", order: 'l', push: func(v E) { s.Push(prio(v)) }, pop: func() E { return elem(s.Pop()) },
			peeks: []func() E{func() E { return elem(s.Top()) }}, size: s.Size, empty: s.Empty,
			list: func() []int { return numbers(s.String()) }}
	}
	q := priorityqueue.New[E](func(a, b E) int { hook(); return cmpK(a, b) }, priorityqueue.WithGoroutineSafe())
	return &ownSeq{name: "priority queue", order: 'p', push: q.Push, pop: q.Pop, peeks: []func() E{q.Top}, size: q.Size, empty: q.Empty}
}

// life is the history of one element: when its push and its pop began and ended.
type life struct {
	e              E
	in, inRet      int64
	out, outRet    int64
	pushed, popped bool
}

type peek struct {
	e         E
	which     int
	call, ret int64
}

func runOwnSeq(t *T, which int) {
	g := newTeam(t)
	c := ownSeqs(t, which, g.hook)
	g.what = c.name
	workers, n, _ := ownSteps(t)
	n = min(n, 400)
	levels := 1 + t.Intn(7)
	lean := 3 + t.Intn(4) // of ten, pushes
	t.Op("owners of elements", c.name, workers, n, levels, lean, g.mode)
	// what may be taken: a worker that took a permit finds an element
	var permits atomic.Int64
	var total tally
	take := func() bool {
		for {
			p := permits.Load()
			if p == 0 {
				return false
			}
			if permits.CompareAndSwap(p, p-1) {
				return true
			}
		}
	}
	type taken struct {
		e         E
		call, ret int64
	}
	lives := make([][]life, workers)
	outs := make([][]taken, workers)
	looks := make([][]peek, workers)
	var bodies []func(r *rand.Rand)
	for w := 0; w < workers; w++ {
		bodies = append(bodies, func(r *rand.Rand) {
			push := func() {
				id := len(lives[w])*workers + w
				e := E{r.IntN(levels), id}
				call := g.now()
				total.inBegun.Add(1)
				c.push(e)
				total.inEnded.Add(1)
				lives[w] = append(lives[w], life{e: e, in: call, inRet: g.now(), pushed: true})
				permits.Add(1)
			}
			for i := 0; i < n && !g.stop.Load(); i++ {
				g.between(w, r)
				x := r.IntN(13)
				switch {
				case x == 12 && r.IntN(10) == 0 && i < n/2: // a burst, past a segment of the deque
					for j := 40 + r.IntN(100); j > 0; j-- {
						push()
					}
				case x < lean:
					push()
				case x < 10:
					if take() {
						call := g.now()
						total.outBegun.Add(1)
						e := c.pop()
						total.outEnded.Add(1)
						outs[w] = append(outs[w], taken{e, call, g.now()})
					}
				case x == 10:
					if take() {
						j := r.IntN(len(c.peeks))
						call := g.now()
						e := c.peeks[j]()
						looks[w] = append(looks[w], peek{e, j, call, g.now()})
						if c.empty() {
							g.fail("worker %d: empty while an element is set aside for it", w)
						}
						permits.Add(1)
					}
				case x == 11:
					if take() {
						if s, ok := total.sized(c.size); !ok || s < 1 {
							g.fail("worker %d: size %d, which it never was during the call", w, s)
						}
						permits.Add(1)
					}
				case c.list != nil && r.IntN(10) == 0:
					seen := map[int]bool{}
					for _, id := range c.list() {
						if seen[id] {
							g.fail("worker %d: an element is listed twice", w)
						}
						seen[id] = true
					}
				}
			}
		})
	}
	g.run(bodies)
	var all []life
	at := map[int]int{}
	for w := range lives {
		for _, l := range lives[w] {
			at[l.e.ID] = len(all)
			all = append(all, l)
		}
	}
	went := func(e E, call, ret int64) {
		i, ok := at[e.ID]
		if !ok || all[i].e != e {
			t.Failf("%s: %v was taken out, nobody had put it in", c.name, e)
		}
		l := &all[i]
		if l.popped {
			t.Failf("%s: %v was taken out twice", c.name, e)
		}
		if ret < l.in {
			t.Failf("%s: %v was taken out before it was put in", c.name, e)
		}
		l.popped, l.out, l.outRet = true, call, ret
	}
	for w := range outs {
		for _, o := range outs[w] {
			went(o.e, o.call, o.ret)
		}
	}
	left := 0
	for i := range all {
		if !all[i].popped {
			left++
		}
	}
	if s := c.size(); s != left {
		t.Failf("%s: size %d after all workers ended, %d are left", c.name, s, left)
	}
	for i := 0; i < left; i++ {
		call := g.now()
		e := c.pop()
		went(e, call, g.now())
	}
	if !c.empty() {
		t.Failf("%s: not empty after all was taken out", c.name)
	}
	// first tells that b, which was there as long as a was seen, goes before a
	first := func(order byte, b, a *life) bool {
		switch order {
		case 'f':
			return b.inRet < a.in
		case 'l':
			return b.in > a.inRet
		}
		return b.e.K < a.e.K || b.e.K == a.e.K && b.inRet < a.in
	}
	for w := range looks {
		for _, l := range looks[w] {
			i, ok := at[l.e.ID]
			if !ok || all[i].e != l.e || l.ret < all[i].in || l.call > all[i].outRet {
				t.Failf("%s: worker %d saw %v during [%d,%d] when it was not there", c.name, w, l.e, l.call, l.ret)
			}
			order := c.order
			if l.which == 1 {
				order = 'l'
			}
			for j := range all {
				if b := &all[j]; b.inRet < l.call && b.out > l.ret && first(order, b, &all[i]) {
					t.Failf("%s: worker %d saw %v during [%d,%d] in place of %v, put in during [%d,%d] and taken out from %d", c.name, w, l.e, l.call, l.ret, b.e, b.in, b.inRet, b.out)
				}
			}
		}
	}
	// b was there for the whole of a's pop, and had to go first
	overlap := 0
	sort.Slice(all, func(i, j int) bool { return all[i].in < all[j].in })
	for i := range all {
		a := &all[i]
		if i > 0 && a.in < all[i-1].inRet {
			overlap++
		}
		for j := range all {
			b := &all[j]
			if b.in > a.out {
				break // and all later ones
			}
			if b.inRet >= a.out || b.out <= a.outRet {
				continue
			}
			if first(c.order, b, a) {
				t.Failf("%s: %v, put in during [%d,%d], was taken out during [%d,%d] while %v was there, put in during [%d,%d] and taken out from %d", c.name, a.e, a.in, a.inRet, a.out, a.outRet, b.e, b.in, b.inRet, b.out)
			}
		}
	}
	if overlap > 0 {
		t.CountN("overlapping pushes of unique elements", overlap)
	}
	t.CountN("elements that were put in and taken out", len(all))
	t.CountN("operations by owners", workers*n)
	t.Count("long histories of " + c.name)
}

func runOwners(t *T) {
	switch w := t.Case % 11; {
	case w < 6:
		runOwnKv(t, w)
	case w == 6:
		runOwnBloom(t)
	case w == 7:
		runOwnKetama(t)
	default:
		runOwnSeq(t, w-8)
	}
	t.Nontrivial()
	t.Sig(uint64(t.Case))
}

var ownNames = []string{"map", "multimap", "set", "multiset", "hamt", "skiplist", "bloom", "ketama", "queue", "stack", "priority queue"}

// runRaceOwners: the race detector watches long use of large containers. There
// are no atomics here, which would order what the workers do.
func runRaceOwners(t *T) {
	which := t.Case % 11
	name := ownNames[which]
	grown := []int{50, 700, 2500}[t.Intn(3)]
	n := 40 + t.Intn(120)
	seed := t.R.Uint64()
	t.Op("long use", name, grown, n)
	t.Sig(seed)
	var op func(r *rand.Rand)
	switch {
	case which < 6:
		c := ownKvs(t, which, func() {})
		for i := 0; i < grown; i++ {
			c.insert(i*7919%grown, i)
		}
		op = func(r *rand.Rand) {
			k := r.IntN(grown + 3)
			switch x := r.IntN(24); {
			case x < 7:
				c.insert(k, x)
			case x < 11:
				c.erase(k)
			case x == 11 && c.eraseAll != nil:
				c.eraseAll(k)
			case x < 15 && c.get != nil:
				c.get(k)
			case x < 17 && c.contains != nil:
				c.contains(k)
			case x == 17 && c.count != nil:
				c.count(k)
			case x < 20 && len(c.valid) > 0:
				c.valid[r.IntN(len(c.valid))](k)
			case x < 22 && c.size != nil:
				c.size()
			default:
				if r.IntN(1+grown/300) == 0 {
					left := r.IntN(2*grown) + 1
					c.walk[r.IntN(len(c.walk))](func(k, v int) bool { left--; return left > 0 })
				}
			}
		}
	case which == 6:
		f := bloom.New(uint64(grown*10), 3, bloom.WithGoroutineSafe())
		op = func(r *rand.Rand) {
			switch v := strconv.Itoa(r.IntN(grown)); r.IntN(9) {
			case 0:
				bloom.NewFromData(f.Data(), bloom.WithGoroutineSafe()).Add(v)
			case 1, 2, 3:
				f.Add(v)
			default:
				f.Contains(v)
			}
		}
	case which == 7:
		f := ketama.New(ketama.WithGoroutineSafe(), ketama.WithReplicas(1+t.Intn(20)))
		for i := 0; i < grown/20; i++ {
			f.Add(strconv.Itoa(i))
		}
		op = func(r *rand.Rand) {
			switch v := strconv.Itoa(r.IntN(grown/20 + 3)); r.IntN(9) {
			case 0, 1:
				f.Add(v, v+"a")
			case 2:
				f.Remove(v, v+"a")
			case 3:
				f.Empty()
			default:
				f.Get(v)
			}
		}
	default:
		c := ownSeqs(t, which-8, func() {})
		for i := 0; i < grown+4*n; i++ {
			c.push(E{i % 7, i})
		}
		op = func(r *rand.Rand) {
			switch x := r.IntN(20); {
			case x < 6:
				c.push(E{r.IntN(7), r.IntN(99)})
			case x < 13:
				c.pop()
			case x < 16:
				c.peeks[r.IntN(len(c.peeks))]()
			case x < 18:
				c.size()
			case x == 18:
				c.empty()
			case c.list != nil && r.IntN(1+grown/300) == 0:
				c.list()
			}
		}
	}
	var bodies []func()
	for w := uint64(0); w < 4; w++ {
		bodies = append(bodies, func() {
			defer func() { recover() }() // what is returned is judged in C27
			r := rand.New(rand.NewPCG(seed, w))
			for i := 0; i < n; i++ {
				op(r)
				if r.IntN(6) == 0 {
					runtime.Gosched()
				}
			}
		})
	}
	together(bodies)
	t.Count("long use of " + name)
	t.Nontrivial()
}
