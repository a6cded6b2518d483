package main

import (
	"fmt"
	"math"

	"github.com/liyue201/gostl/utils/comparator"
)

// C01: the comparators are total orders that agree with the order of the type.

type namedInt int16
type namedStr string
type namedFlt float64

// laws checks one comparator on a pool of values against ref, which orders the
// values independently of the library.
func laws[E any](t *T, name string, cmp comparator.Comparator[E], ref func(a, b E) int, pool []E) {
	rev := comparator.Reverse(cmp)
	rev2 := comparator.Reverse(rev)
	n := len(pool)
	res := make([]int, n*n)
	eq, lt := 0, 0
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			a, b := pool[i], pool[j]
			c := cmp(a, b)
			t.Op(name, fmt.Sprint(a), fmt.Sprint(b))
			if want := ref(a, b); c != want {
				t.Failf("%s(%v, %v) = %d, want %d", name, a, b, c, want)
			}
			if r := rev(a, b); r != -c {
				t.Failf("Reverse(%s)(%v, %v) = %d, want %d", name, a, b, r, -c)
			}
			if r := rev2(a, b); r != c {
				t.Failf("Reverse(Reverse(%s))(%v, %v) = %d, want %d", name, a, b, r, c)
			}
			if c2 := cmp(a, b); c2 != c {
				t.Failf("%s(%v, %v) = %d and then %d", name, a, b, c, c2)
			}
			res[i*n+j] = c
			switch {
			case c == 0 && i != j:
				eq++
			case c < 0:
				lt++
			}
		}
	}
	for i := 0; i < n; i++ {
		if res[i*n+i] != 0 {
			t.Failf("%s(%v, itself) = %d", name, pool[i], res[i*n+i])
		}
		for j := 0; j < n; j++ {
			if res[i*n+j] != -res[j*n+i] {
				t.Failf("%s is not antisymmetric on %v, %v", name, pool[i], pool[j])
			}
			for k := 0; k < n; k++ {
				if res[i*n+j] <= 0 && res[j*n+k] <= 0 && (res[i*n+k] > 0 || (res[i*n+k] == 0 && res[i*n+j]+res[j*n+k] < 0)) {
					t.Failf("%s is not transitive on %v, %v, %v", name, pool[i], pool[j], pool[k])
				}
			}
		}
	}
	t.CountN("pairs compared", n*n)
	t.CountN("triples checked", n*n*n)
	t.CountN("equal pairs of different operands", eq)
	if lt > 0 {
		t.Nontrivial()
	}
	t.Count("comparator " + name)
}

func refOrd[N int | int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64 | uintptr | string | namedInt | namedStr](a, b N) int {
	if a < b {
		return -1
	}
	if b < a {
		return 1
	}
	return 0
}

func refFloat(a, b float64) int {
	an, bn := math.IsNaN(a), math.IsNaN(b)
	switch {
	case an && bn:
		return 0
	case an:
		return -1
	case bn:
		return 1
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

func refComplex(a, b complex128) int {
	if c := refFloat(real(a), real(b)); c != 0 {
		return c
	}
	return refFloat(imag(a), imag(b))
}

// intPool: the extremes of the type, values around zero and random ones with
// near and equal neighbours.
func intPool[N int | int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64 | uintptr | namedInt](t *T) []N {
	var zero N
	var pool []N
	one := zero + 1
	minusOne := zero - 1 // all ones for unsigned
	bits := 1
	for x := one; x<<1 != 0; x <<= 1 {
		bits++
	}
	top := one << (bits - 1)
	base := []N{zero, one, minusOne, top, top - 1, top + 1}
	for i := 0; i < 4; i++ {
		pool = append(pool, base[t.Intn(len(base))])
	}
	for i := 0; i < 4; i++ {
		x := N(t.R.Uint64() >> uint(t.Intn(64)))
		pool = append(pool, x, x+N(t.Intn(3)))
	}
	return pool
}

func floatPool(t *T) []float64 {
	base := []float64{0, math.Copysign(0, -1), 1, -1, math.NaN(), math.Float64frombits(0xfff8000000000001), math.Float64frombits(0x7ff0000000000001),
		math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64,
		math.MaxFloat32, math.SmallestNonzeroFloat32, 1e300, -1e300, 0.1, 1 << 53, 1<<53 + 1}
	var pool []float64
	for i := 0; i < 7; i++ {
		pool = append(pool, base[t.Intn(len(base))])
	}
	for i := 0; i < 3; i++ {
		x := math.Float64frombits(t.R.Uint64())
		pool = append(pool, x, math.Nextafter(x, math.Inf(1)))
	}
	return pool
}

func stringPool(t *T) []string {
	pool := []string{"", "\x00"}
	for i := 0; i < 5; i++ {
		b := make([]byte, t.Intn(12))
		for j := range b {
			switch t.Intn(3) {
			case 0:
				b[j] = "ab"[t.Intn(2)]
			case 1:
				b[j] = byte(t.R.Uint32())
			default:
				b[j] = 0
			}
		}
		s := string(b)
		pool = append(pool, s, s+string([]byte{byte(t.R.Uint32())}))
	}
	// strings with a common prefix of any length that part late, or in length only
	prefix := make([]byte, t.Intn([]int{8, 20, 70, 400}[t.Intn(4)]))
	for j := range prefix {
		prefix[j] = "abc\x00\xff"[t.Intn(5)]
	}
	for i := 0; i < 6; i++ {
		s := append([]byte(nil), prefix...)
		for j := t.Intn(6); j > 0; j-- {
			s = append(s, "ab\x00\xff"[t.Intn(4)])
		}
		if t.Chance(6) && len(s) > 0 {
			s[t.Intn(len(s))] ^= 1 << uint(t.Intn(8))
		}
		pool = append(pool, string(s))
	}
	return pool
}

func mapTo[A, B any](xs []A, f func(A) B) []B {
	ys := make([]B, len(xs))
	for i, x := range xs {
		ys[i] = f(x)
	}
	return ys
}

func runCmpLaws(t *T) {
	switch t.Case % 30 {
	case 0:
		laws(t, "IntComparator", comparator.IntComparator, refOrd[int], intPool[int](t))
	case 1:
		laws(t, "UintComparator", comparator.UintComparator, refOrd[uint], intPool[uint](t))
	case 2:
		laws(t, "Int8Comparator", comparator.Int8Comparator, refOrd[int8], intPool[int8](t))
	case 3:
		laws(t, "Uint8Comparator", comparator.Uint8Comparator, refOrd[uint8], intPool[uint8](t))
	case 4:
		laws(t, "Int16Comparator", comparator.Int16Comparator, refOrd[int16], intPool[int16](t))
	case 5:
		laws(t, "Uint16Comparator", comparator.Uint16Comparator, refOrd[uint16], intPool[uint16](t))
	case 6:
		laws(t, "Int32Comparator", comparator.Int32Comparator, refOrd[int32], intPool[int32](t))
	case 7:
		laws(t, "Uint32Comparator", comparator.Uint32Comparator, refOrd[uint32], intPool[uint32](t))
	case 8:
		laws(t, "Int64Comparator", comparator.Int64Comparator, refOrd[int64], intPool[int64](t))
	case 9:
		laws(t, "Uint64Comparator", comparator.Uint64Comparator, refOrd[uint64], intPool[uint64](t))
	case 10:
		laws(t, "UintptrComparator", comparator.UintptrComparator, refOrd[uintptr], intPool[uintptr](t))
	case 11:
		laws(t, "StringComparator", comparator.StringComparator, refOrd[string], stringPool(t))
	case 12:
		laws(t, "Float64Comparator", comparator.Float64Comparator, refFloat, floatPool(t))
	case 13:
		laws(t, "Float32Comparator", comparator.Float32Comparator, func(a, b float32) int { return refFloat(float64(a), float64(b)) },
			mapTo(floatPool(t), func(x float64) float32 { return float32(x) }))
	case 14:
		fs := floatPool(t)
		pool := mapTo(fs, func(x float64) complex128 { return complex(x, fs[t.Intn(len(fs))]) })
		laws(t, "Complex128Comparator", comparator.Complex128Comparator, refComplex, pool)
	case 15:
		fs := mapTo(floatPool(t), func(x float64) float32 { return float32(x) })
		pool := mapTo(fs, func(x float32) complex64 { return complex(x, fs[t.Intn(len(fs))]) })
		laws(t, "Complex64Comparator", comparator.Complex64Comparator, func(a, b complex64) int {
			return refComplex(complex(float64(real(a)), float64(imag(a))), complex(float64(real(b)), float64(imag(b))))
		}, pool)
	case 16:
		laws(t, "BoolComparator", comparator.BoolComparator, func(a, b bool) int {
			x, y := 0, 0
			if a {
				x = 1
			}
			if b {
				y = 1
			}
			return x - y
		}, []bool{true, false, false, true})
	case 17:
		laws(t, "OrderedTypeCmp[int]", comparator.OrderedTypeCmp[int], refOrd[int], intPool[int](t))
	case 18:
		laws(t, "OrderedTypeCmp[uint8]", comparator.OrderedTypeCmp[uint8], refOrd[uint8], intPool[uint8](t))
	case 19:
		laws(t, "OrderedTypeCmp[uint64]", comparator.OrderedTypeCmp[uint64], refOrd[uint64], intPool[uint64](t))
	case 20:
		laws(t, "OrderedTypeCmp[named string]", comparator.OrderedTypeCmp[namedStr], refOrd[namedStr],
			mapTo(stringPool(t), func(s string) namedStr { return namedStr(s) }))
	case 21:
		laws(t, "OrderedTypeCmp[named int16]", comparator.OrderedTypeCmp[namedInt], refOrd[namedInt], intPool[namedInt](t))
	case 22:
		laws(t, "OrderedTypeCmp[named float64]", comparator.OrderedTypeCmp[namedFlt], func(a, b namedFlt) int { return refFloat(float64(a), float64(b)) },
			mapTo(floatPool(t), func(x float64) namedFlt { return namedFlt(x) }))
	case 23:
		laws(t, "OrderedTypeCmp[float32]", comparator.OrderedTypeCmp[float32], func(a, b float32) int { return refFloat(float64(a), float64(b)) },
			mapTo(floatPool(t), func(x float64) float32 { return float32(x) }))
	case 24:
		laws(t, "OrderedTypeCmp[float64]", comparator.OrderedTypeCmp[float64], refFloat, floatPool(t))
	case 25:
		laws(t, "OrderedTypeCmp[string]", comparator.OrderedTypeCmp[string], refOrd[string], stringPool(t))
	case 26:
		laws(t, "OrderedTypeCmp[int64]", comparator.OrderedTypeCmp[int64], refOrd[int64], intPool[int64](t))
	case 27:
		laws(t, "OrderedTypeCmp[uint32]", comparator.OrderedTypeCmp[uint32], refOrd[uint32], intPool[uint32](t))
	case 28:
		laws(t, "OrderedTypeCmp[uintptr]", comparator.OrderedTypeCmp[uintptr], refOrd[uintptr], intPool[uintptr](t))
	case 29:
		laws(t, "OrderedTypeCmp[uint16]", comparator.OrderedTypeCmp[uint16], refOrd[uint16], intPool[uint16](t))
	}
}

// runCmp8 enumerates every pair of the 8-bit types.
func runCmp8(t *T) {
	a := t.Case
	t.Op("row", a)
	for b := 0; b < 256; b++ {
		if c, w := comparator.Uint8Comparator(uint8(a), uint8(b)), refOrd(a, b); c != w {
			t.Failf("Uint8Comparator(%d, %d) = %d, want %d", a, b, c, w)
		}
		if c, w := comparator.Int8Comparator(int8(a), int8(b)), refOrd(int8(a), int8(b)); c != w {
			t.Failf("Int8Comparator(%d, %d) = %d, want %d", int8(a), int8(b), c, w)
		}
		if c, w := comparator.OrderedTypeCmp(int8(a), int8(b)), refOrd(int8(a), int8(b)); c != w {
			t.Failf("OrderedTypeCmp(%d, %d) = %d, want %d", int8(a), int8(b), c, w)
		}
		if c, w := comparator.Reverse(comparator.Uint8Comparator)(uint8(a), uint8(b)), -refOrd(a, b); c != w {
			t.Failf("Reverse(Uint8Comparator)(%d, %d) = %d, want %d", a, b, c, w)
		}
	}
	t.CountN("pairs compared", 4*256)
	t.Nontrivial()
}

func init() {
	register(&Prop{
		ID:   "C01",
		Rule: "one case = one comparator on a pool of 10-13 values drawn from the extremes of the type, NaN/Inf/signed zero, near and equal neighbours and random bit patterns; every pair is compared with an independent order and every triple with the laws of a total order; non-trivial when two operands compare different. Suite bytes enumerates all pairs of the 8-bit types.",
		Suites: []Suite{
			{Name: "laws", Quick: 240000, Thorough: 600000, Run: runCmpLaws},
			{Name: "bytes", Quick: 256, Thorough: 256, Run: runCmp8, Exhaust: true},
		},
		Require: []string{"equal pairs of different operands", "comparator Complex64Comparator", "comparator BoolComparator"},
	})
}
