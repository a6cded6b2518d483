package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"hash/fnv"
	"math/bits"
	"sort"
	"sync"

	"github.com/liyue201/gostl/ds/bitmap"
	"github.com/liyue201/gostl/ds/hamt"
	"github.com/liyue201/gostl/ds/skiplist"
)

// ---- C19 Hamt ----

func fnvOf(k string) uint64 {
	h := fnv.New64()
	h.Write([]byte(k))
	return h.Sum64()
}

func unhex(s string) string {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// nearKeys are random keys ordered by their bit-reversed hashes, so that
// neighbours share the longest paths of the trie.
var nearKeys = sync.OnceValue(func() []string {
	r := newT("C19", "nearKeys", 0, 1, "").R
	type hk struct {
		h uint64
		k string
	}
	ks := make([]hk, 1<<17)
	for i := range ks {
		b := make([]byte, 6)
		for j := range b {
			b[j] = byte(r.Uint32())
		}
		ks[i].k = string(b)
		ks[i].h = bits.Reverse64(fnvOf(ks[i].k))
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].h < ks[j].h })
	out := make([]string, len(ks))
	for i := range ks {
		out[i] = ks[i].k
	}
	return out
})

// hamtKeys makes a pool of distinct keys of one kind, or of several.
func hamtKeys(t *T) []string {
	seen := map[string]bool{}
	var pool []string
	add := func(k string) {
		if !seen[k] {
			seen[k] = true
			pool = append(pool, k)
		}
	}
	kind := t.Intn(8)
	rstr := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(t.R.Uint32())
		}
		return string(b)
	}
	if kind == 0 || kind == 7 { // short keys, among them the empty one
		for i := 0; i < 12; i++ {
			add(rstr(t.Intn(4)))
		}
		add("")
		add("\x00")
		add("\x00\x00")
	}
	if kind == 1 || kind == 7 { // random keys
		for i, n := 0, []int{10, 60, 400}[t.Intn(3)]; i < n; i++ {
			add(rstr(1 + t.Intn(12)))
		}
	}
	if kind == 2 || kind == 7 { // full collisions
		g := 1 + t.Intn(4)
		for ; g > 0; g-- {
			suf := rstr(t.Intn(3))
			for i, n := 0, 2+t.Intn(4); i < n; i++ {
				add(string(zeroKey) + string(make([]byte, i)) + suf)
			}
		}
	}
	if kind == 3 || kind == 7 { // pairs that part at the deepest levels
		for i, n := 0, 1+t.Intn(6); i < n; i++ {
			p := deepPairs[t.Intn(len(deepPairs))]
			suf := rstr(t.Intn(3))
			add(unhex(p.a) + suf)
			add(unhex(p.b) + suf)
		}
	}
	if kind == 4 || kind == 7 { // deep pairs of colliding groups
		for i, n := 0, 1+t.Intn(3); i < n; i++ {
			p := zeroPairs[t.Intn(len(zeroPairs))]
			suf := rstr(t.Intn(2))
			for j, w := 0, 1+t.Intn(3); j < w; j++ {
				z := string(zeroKey) + string(make([]byte, j))
				add(z + unhex(p.a) + suf)
				add(z + unhex(p.b) + suf)
			}
		}
	}
	if kind == 5 || kind == 7 { // neighbours
		ks := nearKeys()
		w := []int{4, 20, 100, 400}[t.Intn(4)]
		i := t.Intn(len(ks) - w)
		for _, k := range ks[i : i+w] {
			add(k)
		}
	}
	if kind == 6 { // long keys with long common prefixes
		p := rstr(50 + t.Intn(300))
		for i := 0; i < 20; i++ {
			add(p[:t.Intn(len(p)+1)])
			add(p + rstr(1+t.Intn(2)))
		}
	}
	t.R.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	return pool
}

func runHamt(t *T) {
	var opts []hamt.Option
	if t.Chance(2) {
		opts = append(opts, hamt.WithGoroutineSafe())
	}
	pool := hamtKeys(t)
	if t.long > 0 {
		pool = pool[:min(len(pool), 12)]
	}
	m := map[string]int{}
	h := makeHamt(t, opts, len(pool) < 200, func(v int) bool {
		for _, w := range m {
			if v == w {
				return true
			}
		}
		return false
	})
	t.Op("New", len(pool))
	// how deep the pool reaches, and how many keys collide in full
	hs := map[uint64]int{}
	depth := 0
	var rev []uint64
	for _, k := range pool {
		x := fnvOf(k)
		hs[x]++
		rev = append(rev, bits.Reverse64(x))
	}
	sort.Slice(rev, func(i, j int) bool { return rev[i] < rev[j] })
	for i := 1; i < len(rev); i++ {
		if rev[i] != rev[i-1] {
			depth = max(depth, bits.LeadingZeros64(rev[i]^rev[i-1])/6)
		}
	}
	for _, n := range hs {
		if n > 1 {
			t.CountN("keys with one and the same 64-bit hash", n)
		}
	}
	if depth >= 9 {
		t.Count("pools reaching depth 9 or 10")
	}
	key := func(k string) hamt.Key {
		if k == "" && t.Chance(2) {
			return nil
		}
		return hamt.Key(k)
	}
	checkKey := func(k string) {
		v, err := h.Get(key(k))
		w, ok := m[k]
		if ok != (err == nil) || v != w || !ok && !errors.Is(err, hamt.ErrorNotFound) {
			t.Failf("Get(%x) = %d, %v; want %d, present %v", k, v, err, w, ok)
		}
		if ok {
			t.Count("lookups that hit")
		} else {
			t.Count("lookups that miss")
		}
	}
	checkAll := func() {
		for _, k := range pool {
			checkKey(k)
		}
		ks, ss := h.Keys(), h.StringKeys()
		if len(ks) != len(m) || len(ss) != len(m) {
			t.Failf("Keys() lists %d keys and StringKeys() %d, want %d", len(ks), len(ss), len(m))
		}
		seen := map[string]int{}
		for i, k := range ks {
			seen[string(k)] |= 1
			seen[ss[i]] |= 2
		}
		n := 0
		h.Traversal(func(k hamt.Key, v int) bool {
			n++
			if w, ok := m[string(k)]; !ok || w != v || seen[string(k)]&4 != 0 {
				t.Failf("Traversal visits %x=%d, want %d, present %v", k, v, w, ok)
			}
			seen[string(k)] |= 4
			return true
		})
		for k, x := range seen {
			if _, ok := m[k]; !ok || x != 7 {
				t.Failf("%x is in the map: %v; listed by Keys, StringKeys, Traversal: %03b", k, ok, x)
			}
		}
		if n != len(m) {
			t.Failf("Traversal visits %d entries, want %d", n, len(m))
		}
		if n > 1 {
			stop := 1 + t.Intn(n)
			c := 0
			h.Traversal(func(hamt.Key, int) bool { c++; return c < stop })
			if c != stop {
				t.Failf("Traversal made %d visits, the visitor refused after %d", c, stop)
			}
		}
	}
	val := 0
	nst := t.steps(30 + t.Intn(3*min(len(pool), 200)+1))
	grow := true
	for i := 0; t.more(i, nst); i++ {
		if t.Chance(25) {
			grow = !grow
		}
		k := pool[t.Intn(len(pool))]
		if op := t.Intn(4); op == 0 || (op < 3) == grow {
			val++
			_, had := m[k]
			t.Op("Insert", fmt.Sprintf("%x", k), val)
			h.Insert(key(k), val)
			m[k] = val
			if had {
				t.Count("values replaced")
			}
		} else {
			_, had := m[k]
			t.Op("Erase", fmt.Sprintf("%x", k))
			if g := h.Erase(key(k)); g != had {
				t.Failf("Erase(%x) = %v, want %v", k, g, had)
			}
			delete(m, k)
			if had {
				t.Count("erasures that hit")
			} else {
				t.Count("erasures that miss")
			}
		}
		checkKey(k)
		if len(pool) <= 40 || i%16 == 0 {
			checkAll()
		}
		if len(m) > 2 {
			t.Nontrivial()
		}
	}
	checkAll()
	for _, k := range pool {
		t.Op("Erase", fmt.Sprintf("%x", k))
		_, had := m[k]
		if g := h.Erase(key(k)); g != had {
			t.Failf("Erase(%x) = %v, want %v", k, g, had)
		}
		delete(m, k)
		if len(pool) <= 40 {
			checkAll()
		}
	}
	checkAll()
	h.Insert(key(pool[0]), 7)
	m[pool[0]] = 7
	checkAll()
}

// ---- C20 Skiplist ----

func runSkiplist(t *T) {
	cname, cmp0 := pickCmp(t)
	cmp := func(a, b E) int {
		if a.ID == 0 || b.ID == 0 {
			t.Failf("the comparator was called with a key nobody supplied: %v, %v", a, b)
		}
		return cmp0(a, b)
	}
	var opts []skiplist.Option
	lev := []int{0, 1, 2, 3, 5, 10, 16, 32, 63, 64}[t.Intn(10)]
	if lev > 0 {
		opts = append(opts, skiplist.WithMaxLevel(lev))
	}
	if t.Chance(2) {
		opts = append(opts, skiplist.WithGoroutineSafe())
	}
	t.R.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	type kvp struct {
		k E
		v int
	}
	var m []kvp
	target := t.level(3, 10, 40, 150)
	sl := makeSkip(t, cmp, opts, target < 100, func(k E) bool {
		for i := range m {
			if m[i].k == k {
				return true
			}
		}
		return false
	}, func(v int) bool {
		for i := range m {
			if m[i].v == v {
				return true
			}
		}
		return false
	})
	at := func(k E) (int, bool) {
		for i := range m {
			if c := cmp0(m[i].k, k); c >= 0 {
				return i, c == 0
			}
		}
		return len(m), false
	}
	keys := []int{3, target, 4 * target, 1 << 40}[t.Intn(4)]
	id := 0
	newKey := func() E {
		id++
		if len(m) > 0 && t.Chance(3) {
			return E{m[t.Intn(len(m))].k.K + t.Intn(3) - 1, id}
		}
		return E{t.R.IntN(keys) - keys/2, id}
	}
	t.Op("New", cname, lev, keys)
	t.Count(fmt.Sprintf("histories with max level %d", lev))
	check := func() {
		if sl.Len() != len(m) {
			t.Failf("Len() = %d, want %d", sl.Len(), len(m))
		}
		i := 0
		sl.Traversal(func(k E, v int) bool {
			if i >= len(m) || m[i].k != k || m[i].v != v {
				t.Failf("Traversal visits %v=%d in place %d of %d", k, v, i, len(m))
			}
			i++
			return true
		})
		if i != len(m) {
			t.Failf("Traversal visits %d entries, want %d", i, len(m))
		}
		ks := sl.Keys()
		if len(ks) != len(m) {
			t.Failf("Keys() lists %d keys, want %d", len(ks), len(m))
		}
		for i := range ks {
			if ks[i] != m[i].k {
				t.Failf("Keys()[%d] = %v, want %v", i, ks[i], m[i].k)
			}
		}
		if len(m) > 1 {
			stop := 1 + t.Intn(len(m))
			c := 0
			sl.Traversal(func(E, int) bool { c++; return c < stop })
			if c != stop {
				t.Failf("Traversal made %d visits, the visitor refused after %d", c, stop)
			}
		}
	}
	get := func(k E) {
		v, err := sl.Get(k)
		i, ok := at(k)
		w := 0
		if ok {
			w = m[i].v
			t.Count("lookups that hit")
		} else {
			t.Count("lookups that miss")
		}
		if v != w || ok != (err == nil) || !ok && !errors.Is(err, skiplist.ErrorNotFound) {
			t.Failf("Get(%v) = %d, %v; want %d, present %v", k, v, err, w, ok)
		}
	}
	for i, nst := 0, t.steps(40+t.Intn(3*target)); t.more(i, nst); i++ {
		k := newKey()
		j, ok := at(k)
		if t.Intn(2*target) >= len(m) || t.Chance(4) && (t.long == 0 || len(m) < 2*target+10) {
			t.Op("Insert", k.K, i)
			sl.Insert(k, i)
			if ok {
				m[j].v = i // the first key stays
				t.Count("values replaced")
			} else {
				m = append(m, kvp{})
				copy(m[j+1:], m[j:])
				m[j] = kvp{k, i}
			}
		} else {
			if t.Chance(2) {
				j = t.Intn(len(m))
				k.K, ok = m[j].k.K, true
			}
			t.Op("Remove", k.K)
			if g := sl.Remove(k); g != ok {
				t.Failf("Remove(%v) = %v, want %v", k, g, ok)
			}
			if ok {
				m = append(m[:j:j], m[j+1:]...)
				t.Count("removals that hit")
			} else {
				t.Count("removals that miss")
			}
		}
		get(k)
		get(newKey())
		if target < 20 || i%8 == 0 {
			check()
		}
		if len(m) > 3 {
			t.Nontrivial()
		}
	}
	check()
	for len(m) > 0 {
		j := t.Intn(len(m))
		k := m[j].k
		t.Op("Remove", k.K)
		if !sl.Remove(k) {
			t.Failf("Remove(%v) = false for a key in the list", k)
		}
		m = append(m[:j:j], m[j+1:]...)
		get(k)
		if target < 20 || len(m)%8 == 0 {
			check()
		}
	}
	check()
	k := newKey()
	sl.Insert(k, 1)
	m = append(m, kvp{k, 1})
	get(k)
	check()
}

// ---- C21 Bitmap ----

func runBitmap(t *T) {
	var b *bitmap.Bitmap
	var m []bool
	round := func(n int) int { return (n + 7) / 8 * 8 }
	size := []int{t.Intn(20), t.Intn(80), t.Intn(1000), 0, 64}[t.Intn(5)]
	if t.Chance(3) {
		data := make([]byte, (size+7)/8)
		m = make([]bool, len(data)*8)
		for i := range data {
			data[i] = byte(t.R.Uint32())
			for j := 0; j < 8; j++ {
				m[i*8+j] = data[i]>>j&1 == 1
			}
		}
		t.Op("NewFromData", fmt.Sprintf("%x", data))
		if t.Chance(2) { // bytes that are part of more
			data = append(append(make([]byte, 0, len(data)+200), data...), bytes.Repeat([]byte{0xff}, 150)...)[:len(data)]
			t.Count("bitmaps from a part of a slice")
		}
		b = bitmap.NewFromData(data)
		t.Count("bitmaps from data")
	} else {
		t.Op("New", size)
		b = bitmap.New(uint64(size))
		m = make([]bool, round(size))
	}
	pos := func() uint64 {
		switch t.Intn(8) {
		case 0:
			return uint64(len(m)) + uint64(t.Intn(20))
		case 1:
			return []uint64{1 << 63, 1<<64 - 1, 1<<64 - 8, 1 << 32, uint64(len(m)) + 1<<32, uint64(len(m)) + 1<<63, 1<<35 + 1, 1<<61 + 3}[t.Intn(8)]
		case 2:
			if len(m) > 0 {
				return uint64(len(m) - 1 - t.Intn(min(8, len(m))))
			}
		}
		if len(m) == 0 {
			return uint64(t.Intn(3))
		}
		return uint64(t.Intn(len(m)))
	}
	check := func() {
		if b.Size() != uint64(len(m)) {
			t.Failf("Size() = %d, want %d", b.Size(), len(m))
		}
		for i := range m {
			if b.IsSet(uint64(i)) != m[i] {
				t.Failf("IsSet(%d) = %v, want %v (size %d)", i, !m[i], m[i], len(m))
			}
		}
		d := b.Data()
		if len(d) != len(m)/8 {
			t.Failf("Data() has %d bytes, want %d", len(d), len(m)/8)
		}
		c := bitmap.NewFromData(append([]byte(nil), d...))
		if c.Size() != b.Size() || !bytes.Equal(c.Data(), d) {
			t.Failf("a bitmap made from Data() differs")
		}
		for i := range m {
			if (d[i/8]>>(i%8))&1 == 1 != m[i] || c.IsSet(uint64(i)) != m[i] {
				t.Failf("Data() does not hold bit %d in bit %d of byte %d", i, i%8, i/8)
			}
		}
	}
	for i, nst := 0, t.steps(20+t.Intn(60)); t.more(i, nst); i++ {
		p := pos()
		in := p < uint64(len(m))
		if !in {
			t.Count("positions outside")
		}
		switch op := t.Intn(20); {
		case op < 8:
			t.Op("Set", p)
			if g := b.Set(p); g != in {
				t.Failf("Set(%d) = %v with size %d", p, g, len(m))
			}
			if in {
				m[p] = true
			}
		case op < 12:
			t.Op("Unset", p)
			if g := b.Unset(p); g != in {
				t.Failf("Unset(%d) = %v with size %d", p, g, len(m))
			}
			if in {
				m[p] = false
			}
		case op < 16:
			if g := b.IsSet(p); g != (in && m[p]) {
				t.Failf("IsSet(%d) = %v with size %d", p, g, len(m))
			}
		case op < 19:
			n := []int{0, t.Intn(30), t.Intn(200), max(0, len(m)-t.Intn(20)), len(m) + t.Intn(20)}[t.Intn(5)]
			if t.long > 0 && n > 250 {
				n = 250 - t.Intn(40)
			}
			t.Op("Resize", n)
			b.Resize(uint64(n))
			n = round(n)
			if n < len(m) {
				m = append([]bool(nil), m[:n]...)
				t.Count("shrunk")
			} else if n > len(m) {
				m = append(append([]bool(nil), m...), make([]bool, n-len(m))...)
				t.Count("grown")
			}
			t.Nontrivial()
		default:
			if t.Chance(3) {
				t.Op("Clear")
				b.Clear()
				m = make([]bool, len(m))
				t.Count("clears")
			}
		}
		check()
	}
}

func init() {
	register(&Prop{ID: "C19", Rule: "random histories of inserting, replacing, looking up and erasing on pools of up to 400 keys: short ones with the empty and nil key, random ones, keys crafted to share their whole 64-bit hash, pairs sharing 48-61 low hash bits (they part at trie depth 8-10), pairs of colliding groups, neighbours by hash, long common prefixes, and all of them together; compared with a Go map, over the whole pool; then everything is erased; non-trivial with three or more entries",
		Suites:  []Suite{{Name: "histories", Quick: 48000, Thorough: 240000, Run: runHamt}},
		Require: []string{"lookups that hit", "lookups that miss", "values replaced", "erasures that hit", "erasures that miss", "keys with one and the same 64-bit hash", "pools reaching depth 9 or 10"}})
	register(&Prop{ID: "C20", Rule: "random histories of inserting, replacing, looking up and removing on lists of up to 3-150 keys with maximum levels 1 to 64 (or the default) under 5 kinds of order, compared with a sorted list; then everything is removed in random order; the comparator checks that it only sees keys that were supplied; non-trivial with four or more entries",
		Suites:  []Suite{{Name: "histories", Quick: 160000, Thorough: 500000, Run: runSkiplist}},
		Require: []string{"lookups that hit", "lookups that miss", "values replaced", "removals that hit", "removals that miss", "histories with max level 0", "histories with max level 1", "histories with max level 64"},
		Assume:  []string{"the maximum level is 1 to 64"}})
	register(&Prop{ID: "C21", Rule: "random histories of setting, clearing and testing bits inside, at the edge of and far outside a bitmap, shrinking and growing it, clearing it, starting empty or from data; every bit, Size, Data and a bitmap rebuilt from Data are compared with a bool slice after each operation; non-trivial when the bitmap was resized",
		Suites:  []Suite{{Name: "histories", Quick: 600000, Thorough: 1000000, Run: runBitmap}},
		Require: []string{"positions outside", "shrunk", "grown", "clears", "bitmaps from data"}})
}
