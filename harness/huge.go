package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
	"strconv"

	"github.com/liyue201/gostl/ds/bitmap"
	bloom "github.com/liyue201/gostl/ds/bloomfilter"
)

// Bitmaps and filters of more than 2^31 and 2^32 bits. The memory of such an
// array comes zeroed from the system page by page, so only what is touched
// costs anything.

// setBits calls f with the position of every set bit.
func setBits(d []byte, f func(p uint64)) {
	i := 0
	for ; i+8 <= len(d); i += 8 {
		for w := binary.LittleEndian.Uint64(d[i:]); w != 0; w &= w - 1 {
			f(uint64(i)*8 + uint64(bits.TrailingZeros64(w)))
		}
	}
	for ; i < len(d); i++ {
		for w := d[i]; w != 0; w &= w - 1 {
			f(uint64(i)*8 + uint64(bits.TrailingZeros8(w)))
		}
	}
}

func hugeSize(t *T) uint64 {
	n := uint64(1) << (31 + t.Intn(3))
	switch t.Intn(3) {
	case 0:
		n += uint64(t.Intn(4000)) - 2000
	case 1:
		n += uint64(t.R.Int64N(int64(n)))
	}
	return n
}

func runHugeBitmap(t *T) {
	size := hugeSize(t)
	t.Op("New", size)
	b := bitmap.New(size)
	size = (size + 7) / 8 * 8
	m := map[uint64]bool{}
	var ps []uint64 // positions used so far
	pos := func() uint64 {
		switch t.Intn(5) {
		case 0: // at the end of the bitmap or next to a power of two
			if t.Chance(3) {
				return size - uint64(t.Intn(20)) + 8
			}
			return uint64(1)<<(3+t.Intn(33)) + uint64(t.Intn(20)) - 8
		case 1, 2: // an alias of a position used before
			if len(ps) > 0 {
				p := ps[t.Intn(len(ps))]
				d := uint64(1) << t.Intn(36)
				if t.Chance(2) {
					d = 1 << (28 + t.Intn(8))
				}
				switch t.Intn(3) {
				case 0:
					return p + d
				case 1:
					return p - d
				}
				return p
			}
		case 3:
			if t.Chance(8) {
				return t.R.Uint64()
			}
		}
		return uint64(t.R.Int64N(int64(size)))
	}
	for ph := 0; ph < 2; ph++ {
		for i, n := 0, 200+t.Intn(3000); i < n; i++ {
			p := pos()
			in := p < size
			switch t.Intn(4) {
			case 0, 1:
				if g := b.Set(p); g != in {
					t.Failf("Set(%d) = %v with size %d", p, g, size)
				}
				if in {
					m[p] = true
				}
			case 2:
				if g := b.Unset(p); g != in {
					t.Failf("Unset(%d) = %v with size %d", p, g, size)
				}
				delete(m, p)
			case 3:
				if g := b.IsSet(p); g != m[p] {
					t.Failf("IsSet(%d) = %v with size %d", p, g, size)
				}
			}
			ps = append(ps, p)
		}
		for _, p := range ps {
			if g := b.IsSet(p); g != m[p] {
				t.Failf("IsSet(%d) = %v with size %d", p, g, size)
			}
		}
		t.Tick()
		check := func(d []byte) {
			if b.Size() != size || uint64(len(d)) != size/8 {
				t.Failf("Size() = %d, len(Data()) = %d, want a size of %d", b.Size(), len(d), size)
			}
			n := 0
			setBits(d, func(p uint64) {
				if !m[p] {
					t.Failf("Data() has bit %d set, which should not be (size %d)", p, size)
				}
				n++
			})
			if n != len(m) {
				t.Failf("Data() has %d bits set, want %d (size %d)", n, len(m), size)
			}
			t.Tick()
		}
		check(b.Data())
		c := bitmap.NewFromData(b.Data())
		if c.Size() != size {
			t.Failf("a bitmap made from Data() has size %d, want %d", c.Size(), size)
		}
		for i := 0; i < 200; i++ {
			if p := ps[t.Intn(len(ps))]; c.IsSet(p) != m[p] {
				t.Failf("a bitmap made from Data() differs at %d", p)
			}
		}
		t.Count("bitmaps of more than 2^31 bits")
		if size > 1<<32 {
			t.Count("bitmaps of more than 2^32 bits")
		}
		t.Nontrivial()
		if ph == 1 {
			return
		}
		n := hugeSize(t)
		if t.Chance(4) {
			n = uint64(t.Intn(100000))
		}
		t.Op("Resize", n)
		c = nil
		b.Resize(n)
		t.Tick()
		size = (n + 7) / 8 * 8
		for p := range m {
			if p >= size {
				delete(m, p)
			}
		}
		check(b.Data())
		if t.Chance(4) {
			t.Op("Clear")
			b.Clear()
			m = map[uint64]bool{}
		}
		t.State(mix(size, uint64(len(m))))
		if size == 0 {
			return
		}
	}
}

func runHugeBloom(t *T) {
	m := uint64(1)<<(31+t.Intn(2)) + uint64(t.R.Int64N(1<<31)) + uint64(t.Intn(100))
	k := uint64(1 + t.Intn(12))
	n := 300 + t.Intn(3000)
	off := t.Intn(1 << 40)
	t.Op("New", m, k, n)
	f := bloom.New(m, k)
	name := func(i int) string { return strconv.Itoa(off + i) }
	for i := 0; i < n; i++ {
		f.Add(name(i))
	}
	t.Tick()
	all := func(what string, f *bloom.BloomFilter) {
		for i := 0; i < n; i++ {
			if !f.Contains(name(i)) {
				t.Failf("%d bits, %d functions, %d values: %s does not contain %q", m, k, n, what, name(i))
			}
		}
		t.CountN("membership tests of added values", n)
	}
	all("the filter", f)
	d := f.Data()
	t.Tick()
	g := bloom.NewFromData(d)
	t.Tick()
	all("the rebuilt filter", g)
	// of so many bits hardly one is hit twice, and a stranger hits only set ones with a probability below 2^-17
	wrong := 0
	for i := n; i < 3*n; i++ {
		c := f.Contains(name(i))
		if c != g.Contains(name(i)) {
			t.Failf("%d bits, %d functions: the rebuilt filter answers otherwise for %q", m, k, name(i))
		}
		if c {
			wrong++
		}
	}
	if wrong > 6 {
		t.Failf("%d bits, %d functions, %d values: %d of %d others are said to be there", m, k, n, wrong, 2*n)
	}
	e := g.Data()
	if !bytes.Equal(d, e) {
		t.Failf("%d bits: the rebuilt filter exports other bytes", m)
	}
	t.Count("filters of more than 2^31 bits")
	t.Nontrivial()
	t.State(mix(m, k))
}

// runHugeSpread: the positions of the values of a filter of many bits are
// spread over all of them; what they leave out raises the error rate.
func runHugeSpread(t *T) {
	m := uint64(1)<<(31+t.Intn(2)) + uint64(t.R.Int64N(1<<31)) + uint64(t.Intn(100))
	k := uint64(1 + t.Intn(12))
	n := 4000
	t.Op("New", m, k, n)
	f := bloom.New(m, k)
	base := f.Data()
	head := len(base) - int((m+7)/8)
	base = nil
	if head < 0 {
		t.Failf("the export of an empty filter of %d bits has %d bytes", m, len(base))
	}
	off := t.Intn(1 << 40)
	for i := 0; i < n; i++ {
		f.Add(strconv.Itoa(off + i))
	}
	t.Tick()
	const parts = 16
	var cnt [parts]int
	total := 0
	d := f.Data()[head:]
	t.Tick()
	setBits(d, func(p uint64) {
		cnt[min(uint64(float64(p)/float64(m)*parts), parts-1)]++
		total++
	})
	want := float64(n) * float64(k)
	// collisions: about (n*k)^2/2m, at most 0.6 expected
	if float64(total) > want || float64(total) < want-12 {
		t.Failf("%d bits, %d functions, %d values: %d bits are set", m, k, n, total)
	}
	mean := want / parts
	for i, c := range cnt {
		if math.Abs(float64(c)-mean) > 8*math.Sqrt(mean) {
			t.Failf("%d bits, %d functions, %d values: part %d of %d has %d set bits, want about %.0f: %s", m, k, n, i, parts, c, mean, fmt.Sprint(cnt))
		}
	}
	t.Count("filters of more than 2^31 bits")
	t.Nontrivial()
	t.State(mix(m, k))
}

// addHuge registers the suites of huge arrays.
func addHuge() {
	for _, a := range []struct {
		id              string
		quick, thorough int
		run             func(*T)
		rule            string
	}{
		{"C21", 16, 200, runHugeBitmap, "; suite huge: 2^31 to 2^34 bits, positions next to powers of two and aliases of others modulo powers of two, all set bits read off the export"},
		{"C22", 12, 150, runHugeBloom, "; suite huge: filters of 2^31 to 2^33 bits"},
		{"C23", 8, 100, runHugeSpread, "; suite huge: the set bits of filters of 2^31 to 2^33 bits, by sixteenths"},
	} {
		p := findProp(a.id)
		p.Suites = append(p.Suites, Suite{Name: "huge", Quick: a.quick, Thorough: a.thorough, Run: a.run, Workers: 4})
		p.Rule += a.rule
	}
}
