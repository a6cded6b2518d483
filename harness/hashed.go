package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"

	"github.com/liyue201/gostl/algorithm/hash"
	bloom "github.com/liyue201/gostl/ds/bloomfilter"
	"github.com/liyue201/gostl/ds/ketama"
)

// hostileString makes a string of one of several shapes.
func hostileString(t *T) string {
	switch t.Intn(10) {
	case 0:
		return strings.Repeat("\x00", t.Intn(3))
	case 1:
		return "" + string([]byte{0xff, 0xfe, byte(t.Intn(256))})
	case 2:
		return strings.Repeat(string(rune('a'+t.Intn(2))), t.Intn(300))
	case 3:
		return "node" + strconv.Itoa(t.Intn(30))
	case 4:
		b := make([]byte, t.Intn(200))
		for i := range b {
			b[i] = byte(t.R.Uint32())
		}
		return string(b)
	}
	return fmt.Sprintf("%x", t.R.Uint64()>>t.Intn(60))
}

const wordStyles = 13

// words gives one of several ways to make many different strings: what a hash
// that leaves out or mixes badly a part of its input would confuse.
func words(t *T) (style int, word func(i int) string) {
	style = t.Intn(wordStyles)
	base := t.Intn(1 << 20)
	long := strings.Repeat(string(rune('a'+t.Intn(26))), []int{20, 60, 70, 130, 260, 1100}[t.Intn(6)])
	if t.Chance(2) {
		long = strings.Repeat("/a/long/path", len(long)/12+1)
	}
	t.Op("words", style, base, len(long))
	if style >= 3 {
		t.Count("many strings alike in a long or odd part")
	}
	switch style {
	case 0:
		return style, func(i int) string { return strconv.Itoa(base + i) }
	case 1:
		return style, func(i int) string { return fmt.Sprintf("user-%08d@example.org", base+i) }
	case 2:
		return style, func(i int) string {
			return string([]byte{byte(base), byte(base >> 8), byte(i), byte(i >> 8), byte(i >> 16)})
		}
	case 3:
		return style, func(i int) string { return long + strconv.Itoa(base+i) }
	case 4:
		return style, func(i int) string { return strconv.Itoa(base+i) + "/" + long }
	case 5:
		return style, func(i int) string { return long + strconv.Itoa(base+i) + long }
	case 6: // upper and lower case
		return style, func(i int) string {
			b := []byte("abcdefghijklmnopqrstuvwxyzab")
			for j := range b {
				if (base+i)>>j&1 == 1 {
					b[j] ^= 0x20
				}
			}
			return string(b)
		}
	case 7: // low bits, among them zero bytes
		return style, func(i int) string {
			b := make([]byte, 28)
			for j := range b {
				b[j] = byte((base + i) >> j & 1)
			}
			return string(b)
		}
	case 8: // high bits
		return style, func(i int) string {
			b := make([]byte, 28)
			for j := range b {
				b[j] = byte((base+i)>>j&1) << 7
			}
			return string(b)
		}
	case 9: // runs of equal bytes, told apart by their lengths
		return style, func(i int) string {
			return strings.Repeat("n", i%60) + "/" + strings.Repeat("n", i/60%60) + "/" + strings.Repeat("n", i/3600) + long[:4]
		}
	case 10: // the same letters in another order
		return style, func(i int) string {
			b := []byte("0123456789ab")
			for j, x := len(b), i*7+base; j > 1; j-- {
				k := x % j
				x /= j
				b[j-1], b[k] = b[k], b[j-1]
			}
			return string(b)
		}
	case 11:
		return style, func(i int) string { return string([]rune{rune(0x4e00 + i%20000), rune(0x400 + i/20000)}) }
	}
	// differing in the middle of a long string with a common end
	return style, func(i int) string {
		return fmt.Sprintf("https://%s.example.org/%08x/%s", long[:20], base+i, long)
	}
}

// ---- C22 bloom filter: no false negatives ----

// bloomDesc describes a filter that makeBloom can make.
func makeBloom(t *T) (*bloom.BloomFilter, string, int) {
	var opts []bloom.Option
	if t.Chance(2) {
		opts = append(opts, bloom.WithGoroutineSafe())
	}
	if t.Chance(3) {
		n := 1 + t.Intn([]int{3, 30, 300}[t.Intn(3)])
		p := []float64{0.9, 0.5, 0.1, 0.01, 1e-4, 1e-9}[t.Intn(6)]
		return bloom.NewWithEstimates(uint64(n), p, opts...), fmt.Sprintf("estimates %d, %g", n, p), n
	}
	m := 1 + t.Intn([]int{3, 20, 200, 5000}[t.Intn(4)])
	k := []int{1, 2, 3, 7, 8, 9, 16, 17, 40, 100}[t.Intn(10)]
	if t.Chance(60) {
		k = []int{255, 256, 257, 300, 1000, 4100, 65535, 65536, 66000}[t.Intn(9)]
		if t.Chance(2) {
			m *= 1 + t.Intn(50)
		}
		t.Count("filters with more than 250 hash functions")
	}
	if k > 8 {
		t.Count("filters with more than 8 hash functions")
	}
	return bloom.New(uint64(m), uint64(k), opts...), fmt.Sprintf("m %d, k %d", m, k), 1 + m/k
}

func runBloom(t *T) {
	f, desc, capa := makeBloom(t)
	t.Op("New", desc)
	var added []string
	probes := make([]string, 12)
	for i := range probes {
		probes[i] = hostileString(t) + "?"
	}
	yes := map[string]bool{}
	empty := f.Data()
	for _, p := range probes {
		if f.Contains(p) {
			t.Failf("%s: the empty filter contains %q", desc, p)
		}
	}
	check := func(f *bloom.BloomFilter, what string) {
		for _, v := range added {
			if !f.Contains(v) {
				t.Failf("%s (%s): %q was added, Contains says no", what, desc, v)
			}
		}
		t.CountN("membership tests of added values", len(added))
	}
	nst := 3 + t.Intn(3*min(capa, 40))
	for i := 0; i < nst; i++ {
		v := hostileString(t)
		if t.Chance(6) && len(added) > 0 {
			v = added[t.Intn(len(added))]
			before := f.Data()
			t.Op("Add again", v)
			f.Add(v)
			if !bytes.Equal(before, f.Data()) {
				t.Failf("%s: adding %q again changed the filter", desc, v)
			}
			t.Count("repeated additions")
			continue
		}
		t.Op("Add", v)
		f.Add(v)
		added = append(added, v)
		if !f.Contains(v) {
			t.Failf("%s: %q was just added, Contains says no", desc, v)
		}
		if len(added) < 20 || t.Chance(8) {
			check(f, "filter")
		}
		// once yes, always yes
		for _, p := range probes {
			c := f.Contains(p)
			if yes[p] && !c {
				t.Failf("%s: Contains(%q) turned from true to false", desc, p)
			}
			yes[p] = c
		}
		if t.Chance(10) {
			before := f.Data()
			var opts []bloom.Option
			if t.Chance(2) {
				opts = append(opts, bloom.WithGoroutineSafe())
			}
			t.Op("Data, NewFromData")
			src := before
			if t.Chance(2) { // bytes that are part of more
				src = append(append([]byte("before"), before...), "\xff\xffbehind"...)[6:][:len(before)]
			}
			g := bloom.NewFromData(src, opts...)
			check(g, "rebuilt filter")
			for _, p := range probes {
				if g.Contains(p) != yes[p] {
					t.Failf("%s: the rebuilt filter answers %v for %q", desc, !yes[p], p)
				}
			}
			if !bytes.Equal(g.Data(), before) || !bytes.Equal(f.Data(), before) {
				t.Failf("%s: Data changed by exporting and rebuilding", desc)
			}
			t.Count("rebuilt filters")
			if t.Chance(2) {
				f = g // go on with the copy
			}
		}
		if len(added) > 1 {
			t.Nontrivial()
		}
	}
	check(f, "filter")
	// the same values in another order and another filter over the same parameters
	g := bloom.NewFromData(empty)
	ord := t.R.Perm(len(added))
	for _, i := range ord {
		g.Add(added[i])
	}
	if !bytes.Equal(f.Data(), g.Data()) {
		t.Failf("%s: the filter depends on the order of the additions", desc)
	}
	t.Count("filters refilled in another order")
}

// ---- C23 bloom filter: error rate, hash values ----

func runBloomRate(t *T) {
	n := []int{50, 100, 300, 1000, 3000}[t.Intn(5)]
	p := []float64{0.4, 0.2, 0.1, 0.05, 0.02, 0.01, 0.003, 0.001}[t.Intn(8)]
	_, val := words(t)
	f := bloom.NewWithEstimates(uint64(n), p)
	t.Op("NewWithEstimates", n, fmt.Sprint(p))
	for i := 0; i < n; i++ {
		f.Add(val(i))
	}
	probes := 20000
	hits := 0
	for i := 0; i < probes; i++ {
		if f.Contains(val(n + i)) {
			hits++
		}
		if i%1000 == 0 {
			t.Tick()
		}
	}
	t.CountN("non-members tested", probes)
	t.CountN("false positives", hits)
	bound := 1.2*p*float64(probes) + 7*math.Sqrt(p*float64(probes))*math.Max(1, 20/math.Sqrt(float64(n))) + 7
	if float64(hits) > bound {
		t.Failf("NewWithEstimates(%d, %g) filled with %d values has %d false positives in %d tests, want about %.0f", n, p, n, hits, probes, p*float64(probes))
	}
	t.Nontrivial()
}

// runBloomTheory: with m bits and k functions the error rate is what k
// independent hash functions give.
func runBloomTheory(t *T) {
	k := []int{1, 2, 4, 8, 9, 12, 16, 20, 32}[t.Intn(9)]
	n := 100 + t.Intn(400)
	per := []float64{0.3, 0.7, 1.2}[t.Intn(3)] // filled so that the expected rate is measurable
	m := int(float64(n*k) / per)
	f := bloom.New(uint64(m), uint64(k))
	_, val := words(t)
	t.Op("New", m, k, n)
	for i := 0; i < n; i++ {
		f.Add(val(i))
	}
	want := math.Pow(1-math.Pow(1-1/float64(m), float64(k*n)), float64(k))
	probes := 8000
	hits := 0
	for i := 0; i < probes; i++ {
		if f.Contains(val(n + i)) {
			hits++
		}
		if i%1000 == 0 {
			t.Tick()
		}
	}
	e := want * float64(probes)
	// the fill fluctuates with n, which the k-th power amplifies
	fluct := 1 + 6*float64(k)/math.Sqrt(float64(k*n))
	if b := e*fluct + 7*math.Sqrt(e*fluct) + 7; float64(hits) > b {
		t.Failf("New(%d, %d) with %d values has %d false positives in %d tests, independent hash functions give %.1f", m, k, n, hits, probes, e)
	}
	t.CountN("non-members tested", probes)
	if k > 8 {
		t.Count("rates with more than 8 hash functions")
	}
	t.Nontrivial()
}

func runEstimates(t *T) {
	n := 1 + t.Intn([]int{10, 1000, 1 << 20, 1 << 40}[t.Intn(4)])
	p := math.Pow(10, -12*t.R.Float64()) * 0.99
	m, k := bloom.EstimateParameters(uint64(n), p)
	t.Op("EstimateParameters", n, fmt.Sprint(p))
	ideal := -float64(n) * math.Log(p) / (math.Ln2 * math.Ln2)
	if float64(m) < math.Floor(ideal*(1-1e-9)) || float64(m) > ideal*1.01+64 {
		t.Failf("EstimateParameters(%d, %g) = %d bits, the optimum is %.1f", n, p, m, ideal)
	}
	if k < 1 || float64(k) > math.Ceil(-math.Log2(p))*1.1+math.Ln2/float64(n)+1 {
		t.Failf("EstimateParameters(%d, %g) = %d hash functions", n, p, k)
	}
	if n >= 50 {
		fp := math.Pow(-math.Expm1(-float64(k)*float64(n)/float64(m)), float64(k))
		if fp > 1.2*p {
			t.Failf("EstimateParameters(%d, %g) = %d, %d, which gives an error rate of %g", n, p, m, k, fp)
		}
		t.Nontrivial()
	}
	t.Count("estimates")
}

func runGenHash(t *T) {
	seed := hostileString(t)
	n := []int{0, 1, 7, 8, 9, 15, 16, 17, 64, 65, 100, 1000}[t.Intn(12)]
	b := []byte(seed)
	// spare capacity that must not be written to
	b = append(make([]byte, 0, len(b)+100), b...)
	t.Op("GenHashInts", fmt.Sprintf("%x", clip(seed, 60)), n)
	hs := hash.GenHashInts(b, n)
	if len(hs) != n {
		t.Failf("GenHashInts(%x, %d) has %d values", seed, n, len(hs))
	}
	if string(b) != seed || !bytes.Equal(b[:cap(b)][len(b):], make([]byte, cap(b)-len(b))) {
		t.Failf("GenHashInts changed its seed")
	}
	seen := make(map[uint64]int, n)
	for i, h := range hs {
		if j, ok := seen[h]; ok {
			t.Failf("GenHashInts(%x, %d): values %d and %d are the same", seed, n, j, i)
		}
		seen[h] = i
	}
	m := t.Intn(n + 20)
	other := hash.GenHashInts([]byte(seed), m)
	for i := 0; i < min(m, n); i++ {
		if other[i] != hs[i] {
			t.Failf("GenHashInts(%x, %d) and (…, %d) differ at %d", seed, n, m, i)
		}
	}
	// another seed shares nothing with it
	s2 := seed + string([]byte{byte(t.Intn(256))})
	for i, h := range hash.GenHashInts([]byte(s2), n) {
		if j, ok := seen[h]; ok {
			t.Failf("GenHashInts: value %d of %x is value %d of %x", i, s2, j, seed)
		}
	}
	// what the caller does with the values is its own affair
	for i := range hs {
		hs[i] = ^hs[i]
	}
	for i, h := range hash.GenHashInts([]byte(seed), n) {
		if h != ^hs[i] {
			t.Failf("GenHashInts(%x, %d) gives other values after the first ones were overwritten", seed, n)
		}
	}
	d := hash.Hash512([]byte(seed))
	if len(d) != 64 || !bytes.Equal(d, hash.Hash512([]byte(seed))) {
		t.Failf("Hash512(%x) = %x", seed, d)
	}
	if n > 8 {
		t.Count("hash values beyond the first digest")
		t.Nontrivial()
	}
}

// ---- C24 ketama: a consistent mapping ----

type ring struct {
	k    *ketama.Ketama
	have map[string]bool
	hist string
}

func (r *ring) nodes() (out []string) {
	for n := range r.have {
		out = append(out, n)
	}
	sort.Strings(out)
	return
}

func ketamaOpts(t *T, reps int) (opts []ketama.Option) {
	if reps > 0 {
		opts = append(opts, ketama.WithReplicas(reps))
	}
	if t.Chance(2) {
		opts = append(opts, ketama.WithGoroutineSafe())
	}
	t.R.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	return
}

func runKetama(t *T) {
	reps := []int{0, 1, 2, 3, 8, 9, 20, 100}[t.Intn(8)]
	if t.long > 0 {
		reps = 1 + t.Intn(3)
	}
	r := &ring{ketama.New(ketamaOpts(t, reps)...), map[string]bool{}, ""}
	t.Op("New", reps)
	var pool []string
	seen := map[string]bool{}
	for i, n := 0, 1+t.Intn(12); i < n; i++ {
		s := hostileString(t)
		if i == 0 && t.Chance(4) {
			s = ""
			t.Count("the empty string as a node")
		}
		if !seen[s] {
			seen[s] = true
			pool = append(pool, s)
		}
	}
	var keys []string
	nk := 60
	if t.long > 0 {
		nk = 6
		pool = pool[:min(len(pool), 5)]
	}
	for i := 0; i < nk; i++ {
		keys = append(keys, hostileString(t))
	}
	keys = append(keys, pool...) // a key named like a node is as good as any
	read := func() []string {
		out := make([]string, len(keys))
		for i, k := range keys {
			n, ok := r.k.Get(k)
			if ok != (len(r.have) > 0) {
				t.Failf("Get(%q) = %q, %v with nodes %q", k, n, ok, r.nodes())
			}
			if ok && !r.have[n] || !ok && n != "" {
				t.Failf("Get(%q) = %q, which is not among %q", k, n, r.nodes())
			}
			if n2, ok2 := r.k.Get(k); n2 != n || ok2 != ok {
				t.Failf("Get(%q) = %q, then %q, with no change between", k, n, n2)
			}
			out[i] = n
		}
		if r.k.Empty() != (len(r.have) == 0) {
			t.Failf("Empty() = %v with nodes %q", r.k.Empty(), r.nodes())
		}
		t.CountN("keys mapped", len(keys))
		return out
	}
	cur := read()
	for i, nst := 0, t.steps(6+t.Intn(20)); t.more(i, nst); i++ {
		var args []string
		na := 1
		if t.Chance(4) {
			na = t.Intn(4)
		}
		for j := 0; j < na; j++ {
			args = append(args, pool[t.Intn(len(pool))])
		}
		change := map[string]bool{}
		before := len(r.have)
		add := t.Chance(2)
		if add {
			t.Op("Add", fmt.Sprintf("%q", args))
			r.k.Add(args...)
			for _, a := range args {
				if !r.have[a] {
					change[a] = true
				} else {
					t.Count("nodes added again")
				}
				r.have[a] = true
			}
		} else {
			t.Op("Remove", fmt.Sprintf("%q", args))
			r.k.Remove(args...)
			for _, a := range args {
				if r.have[a] {
					change[a] = true
				} else {
					t.Count("absent nodes removed")
				}
				delete(r.have, a)
			}
		}
		now := read()
		for j := range keys {
			if now[j] == cur[j] || before == 0 || len(r.have) == 0 {
				continue
			}
			if add && !change[now[j]] {
				t.Failf("after Add(%q) key %q moved from %q to %q", args, keys[j], cur[j], now[j])
			}
			if !add && !change[cur[j]] {
				t.Failf("after Remove(%q) key %q moved from %q to %q", args, keys[j], cur[j], now[j])
			}
			t.Count("keys moved by a change of nodes")
			t.Nontrivial()
		}
		cur = now
		if t.Chance(5) {
			// the mapping depends on the set of nodes alone
			o := ketama.New(ketamaOpts(t, reps)...)
			ns := r.nodes()
			t.R.Shuffle(len(ns), func(i, j int) { ns[i], ns[j] = ns[j], ns[i] })
			extra := pool[t.Intn(len(pool))]
			if !r.have[extra] {
				o.Add(extra)
			}
			if t.Chance(2) {
				o.Add(ns...)
			} else {
				for _, n := range ns {
					o.Add(n)
				}
			}
			if !r.have[extra] {
				o.Remove(extra)
			}
			for j, k := range keys {
				if n, _ := o.Get(k); n != cur[j] {
					t.Failf("with the nodes %q key %q maps to %q on one ring and to %q on another", r.nodes(), k, cur[j], n)
				}
			}
			t.Count("rings compared")
		}
	}
	r.k.Remove(r.nodes()...)
	r.have = map[string]bool{}
	read()
}

// ---- C25 ketama: balance ----

func runBalance(t *T) {
	reps, nodes := 200, 2+t.Intn(15)
	lo, hi := 0.55, 1.6
	if t.Chance(4) {
		reps, lo, hi = 50, 0.3, 2.2
	}
	style, name := words(t)
	kstyle, key := words(t)
	k := ketama.New(ketama.WithReplicas(reps))
	t.Op("New", reps, nodes, style, kstyle)
	// some churn first: the shares depend on the present nodes only
	for i := 0; i < nodes+3; i++ {
		k.Add(name(i))
	}
	for i := nodes; i < nodes+3; i++ {
		k.Remove(name(i))
	}
	n := nodes * 1500
	cnt := map[string]int{}
	for i := 0; i < n; i++ {
		x, ok := k.Get(key(i))
		if !ok {
			t.Failf("Get found no node among %d", nodes)
		}
		cnt[x]++
		if i%1000 == 0 {
			t.Tick()
		}
	}
	for i := 0; i < nodes; i++ {
		share := float64(cnt[name(i)]) / float64(n) * float64(nodes)
		if share < lo || share > hi {
			t.Failf("with %d nodes and %d replicas, %q is given %.2f times its fair share of %d keys", nodes, reps, name(i), share, n)
		}
		delete(cnt, name(i))
	}
	if len(cnt) > 0 {
		t.Failf("keys are mapped to removed nodes: %v", cnt)
	}
	t.CountN("keys mapped", n)
	t.Nontrivial()
}

// ---- the same in another process ----

// fingerprint digests what a set of filters, rings and hash values look like.
func fingerprint(t *T) string {
	var b strings.Builder
	f, desc, _ := makeBloom(t)
	for i := 0; i < 10; i++ {
		f.Add(hostileString(t))
	}
	fmt.Fprintf(&b, "%s %x\n", desc, f.Data())
	k := ketama.New(ketama.WithReplicas(1 + t.Intn(30)))
	for i := 0; i < 6; i++ {
		k.Add(hostileString(t))
	}
	for i := 0; i < 40; i++ {
		n, ok := k.Get(hostileString(t))
		fmt.Fprintf(&b, "%x %v\n", n, ok)
	}
	return b.String()
}

func runOtherProcess(t *T) {
	mine := strings.Split(fingerprint(newT("probe", "", t.Case, t.Seed, "")), "\n")
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	t.Op("probe", t.Case)
	out, err := exec.Command(exe, "probe", strconv.FormatInt(t.Seed, 10), strconv.Itoa(t.Case)).Output()
	if err != nil {
		t.Failf("the other process failed: %v", err)
	}
	for i, l := range strings.Split(string(out), "\n") {
		if i >= len(mine) || l != mine[i] {
			t.Failf("another process maps differently: %s and %s", clip(mine[i], 300), clip(l, 300))
		}
	}
	t.Count("mappings compared with another process")
	t.Nontrivial()
}

func init() {
	register(&Prop{ID: "C22", Rule: "random filters (1 to 5000 bits, 1 to 100 hash functions, or from estimates) filled with values of hostile shapes up to three times their capacity; every added value, 12 probes, repeated additions, export and rebuilding (and going on with the copy), refilling in another order, each compared by answers and by bytes; suite process: the filter bytes made by another process from the same values; non-trivial with two or more values",
		Suites: []Suite{
			{Name: "histories", Quick: 60000, Thorough: 600000, Run: runBloom},
			{Name: "process", Quick: 32, Thorough: 400, Run: runOtherProcess},
		},
		Require: []string{"membership tests of added values", "repeated additions", "rebuilt filters", "filters refilled in another order", "filters with more than 8 hash functions", "mappings compared with another process"},
		Assume:  []string{"m is at least 1; an exported filter is not truncated"}})
	register(&Prop{ID: "C23", Rule: "filters made for n values (50-3000) and a rate (0.4-0.001), filled with n values and asked for 20000 others; filters with m bits and k functions (1-32) against the rate of k independent functions, 8000 others; parameter estimates against the optimum; hash values: count, no repetition, prefix property, seed untouched; values in thirteen styles (long common beginnings and ends, cases, single bits, permuted letters ...); all bounds are at least 7 standard deviations wide",
		Suites: []Suite{
			{Name: "estimated", Quick: 960, Thorough: 6000, Run: runBloomRate},
			{Name: "theory", Quick: 1920, Thorough: 12000, Run: runBloomTheory},
			{Name: "parameters", Quick: 160000, Thorough: 1000000, Run: runEstimates},
			{Name: "hashes", Quick: 80000, Thorough: 400000, Run: runGenHash},
		},
		Require: []string{"non-members tested", "false positives", "estimates", "rates with more than 8 hash functions", "hash values beyond the first digest"}})
	register(&Prop{ID: "C24", Rule: "random histories of adding and removing nodes (none to three at a time, again, absent ones) from a pool of up to 12 hostile names with 1-100 replicas; after each change 60-72 keys are mapped twice and compared with the mapping before, and with a second ring of the same nodes and another history; suite process: the mapping in another process; non-trivial when keys moved",
		Suites: []Suite{
			{Name: "histories", Quick: 24000, Thorough: 150000, Run: runKetama},
			{Name: "process", Quick: 32, Thorough: 400, Run: runOtherProcess},
		},
		Require: []string{"keys mapped", "keys moved by a change of nodes", "rings compared", "nodes added again", "absent nodes removed", "the empty string as a node", "mappings compared with another process"},
		Assume:  []string{"no two of the 64-bit ring positions coincide (they are hash values)"}})
	register(&Prop{ID: "C25", Rule: "rings of 2-16 nodes with 200 (or 50) replicas after some churn, 1500 keys per node, names and keys in thirteen styles; every share must lie within 0.55-1.6 (0.3-2.2) of the fair one; non-trivial always",
		Suites:  []Suite{{Name: "shares", Quick: 3200, Thorough: 20000, Run: runBalance}},
		Require: []string{"keys mapped"}})
}
