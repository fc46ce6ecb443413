// Package numbers: driver of common/math.
package numbers

import (
	"math"
	"math/big"
	"math/rand"
	"sort"
	"testing"

	cm "github.com/ahKevinXy/go-web-tools/common/math"
	"github.com/ahKevinXy/go-web-tools/zzverif/core"
	"golang.org/x/exp/constraints"
)

type own8 uint8
type own32 uint32

// ops of one unsigned width
type width struct {
	bits     int
	isPow    func(uint64) bool
	up, down func(uint64) uint64
	last     func(uint64) int
	split    bool
}

func mk[T constraints.Unsigned](bits int) width {
	return width{bits: bits,
		isPow: func(n uint64) bool { return cm.IsPowOf2(T(n)) },
		up:    func(n uint64) uint64 { return uint64(cm.RoundUpPowOf2(T(n))) },
		down:  func(n uint64) uint64 { return uint64(cm.RoundDownPowOf2(T(n))) },
		last:  func(n uint64) int { return cm.FindLastBitSet(T(n)) }}
}

// the logarithm over a type, whole numbers given by their bits
func lg[T constraints.Integer](n uint64) int { return int(cm.Log2(T(n))) }

type own64 int64

var logs = map[string]func(uint64) int{
	"uint8": lg[uint8], "uint16": lg[uint16], "uint32": lg[uint32], "uint64": lg[uint64], "uint": lg[uint], "uintptr": lg[uintptr],
	"own8": lg[own8], "own32": lg[own32], "int8": lg[int8], "int16": lg[int16], "int32": lg[int32], "int64": lg[int64], "int": lg[int], "own64": lg[own64],
}
var logBits = map[string]int{"int8": 7, "int16": 15, "int32": 31, "int64": 63, "int": 63, "own64": 63}
var logNames = []string{"uint8", "uint16", "uint32", "uint64", "uint", "uintptr", "own8", "own32", "int8", "int16", "int32", "int64", "int", "own64"}

func logWidth(ty string) int {
	if b := logBits[ty]; b > 0 {
		return b
	}
	return widths[ty].bits
}

// 2^k * m / 2^14
func flog(ty string, k, m int) core.A {
	x := math.Ldexp(float64(m), k-14)
	r := 0.0
	if ty == "float32" {
		r = float64(cm.Log2(float32(x)))
	} else {
		r = cm.Log2(x)
	}
	d := math.Floor((r - float64(k)) * 256)
	if !(math.Abs(d) < 1e6) {
		d = 1e6
	}
	return core.A{"f", int(d), r == float64(k)}
}

var widths = map[string]width{
	"uint8": mk[uint8](8), "uint16": mk[uint16](16), "uint32": mk[uint32](32), "uint64": mk[uint64](64),
	"uint": mk[uint](64), "uintptr": mk[uintptr](64), "own8": mk[own8](8), "own32": mk[own32](32),
}

var names = []string{"uint8", "uint16", "uint32", "uint64", "uint", "uintptr", "own8", "own32"}

func bitsOf(n uint64) core.A {
	a := core.A{}
	for i := 0; i < 64; i++ {
		if n>>uint(i)&1 == 1 {
			a = append(a, i)
		}
	}
	return a
}

func numOf(c core.M) uint64 {
	var n uint64
	switch v := c["n"].(type) {
	case core.A:
		for _, b := range v {
			switch x := b.(type) {
			case int:
				n |= 1 << uint(x)
			case float64:
				n |= 1 << uint(x)
			}
		}
	}
	return n
}

func limbs(n uint64) core.A {
	a := core.A{}
	for ; n > 0; n >>= 15 {
		a = append(a, int(n&32767))
	}
	return a
}

func unlimb(v interface{}) uint64 {
	var n uint64
	if a, ok := v.(core.A); ok {
		for i, x := range a {
			var d uint64
			switch y := x.(type) {
			case int:
				d = uint64(y)
			case float64:
				d = uint64(y)
			}
			n |= d << (15 * uint(i))
		}
	}
	return n
}

type ordered[T constraints.Ordered] struct{ v []T }

func (o ordered[T]) at(x T) int {
	for i, y := range o.v {
		if x == y {
			return i
		}
	}
	return 1 << 20
}

type ranked interface {
	n() int
	max(i, j int) int
	min(i, j int) int
}

func (o ordered[T]) n() int           { return len(o.v) }
func (o ordered[T]) max(i, j int) int { return o.at(cm.Max(o.v[i], o.v[j])) }
func (o ordered[T]) min(i, j int) int { return o.at(cm.Min(o.v[i], o.v[j])) }

func asc[T constraints.Ordered](v ...T) ordered[T] {
	sort.Slice(v, func(i, j int) bool { return v[i] < v[j] })
	return ordered[T]{v}
}

var lists = map[string]ranked{
	"int":     asc(math.MinInt64, math.MinInt64+1, -1<<40, -2, -1, 0, 1, 2, 3, 1<<40, math.MaxInt64-1, math.MaxInt64),
	"int8":    asc[int8](-128, -127, -1, 0, 1, 126, 127),
	"uint64":  asc[uint64](0, 1, 2, 1<<63-1, 1<<63, 1<<63+1, math.MaxUint64),
	"float64": asc(math.Inf(-1), -math.MaxFloat64, -1.5, -1, -math.SmallestNonzeroFloat64, 0, math.SmallestNonzeroFloat64, 1, 1.5, math.MaxFloat64, math.Inf(1)),
	"float32": asc[float32](-math.MaxFloat32, -1, 0, 0.5, 1, math.MaxFloat32),
	"string":  asc("", "\x00", "A", "B", "a", "aa", "ab", "b", "é", "中"),
}
var listNames = []string{"int", "int8", "uint64", "float64", "float32", "string"}

func absTable[T constraints.Float | constraints.Signed](pos ...T) func(int) int {
	sort.Slice(pos, func(i, j int) bool { return pos[i] < pos[j] })
	return func(k int) int {
		var x T
		switch {
		case k > 0:
			x = pos[k-1]
		case k < 0:
			x = -pos[-k-1]
		}
		y := cm.Abs(x)
		if y == 0 {
			return 0
		}
		for i, p := range pos {
			if y == p {
				return i + 1
			}
			if y == -p {
				return -i - 1
			}
		}
		return 1 << 20
	}
}

// values 1..n of each type; negative numbers stand for their negations
var abs = map[string]func(int) int{
	"int":     absTable(1, 2, 3, 1<<40, math.MaxInt64-1, math.MaxInt64),
	"int8":    absTable[int8](1, 2, 3, 100, 126, 127),
	"int32":   absTable[int32](1, 2, 3, 1<<20, math.MaxInt32-1, math.MaxInt32),
	"float64": absTable(math.SmallestNonzeroFloat64, 0.5, 1, 1.5, math.MaxFloat64, math.Inf(1)),
	"float32": absTable[float32](0.25, 0.5, 1, 1.5, 3, math.MaxFloat32),
}
var absNames = []string{"int", "int8", "int32", "float64", "float32"}

type nums struct{}

func (nums) Obs() interface{} { return nil }

func (nums) Do(c core.M) core.A {
	ty, _ := c["ty"].(string)
	if c["op"] == "FLog" {
		return flog(ty, core.I(c, "k"), core.I(c, "m"))
	}
	if ty == "" {
		ty = "uint8"
	}
	w := widths[ty]
	switch c["op"] {
	case "IsPow":
		return core.A{"b", w.isPow(numOf(c))}
	case "LastBit":
		return core.A{"v", w.last(numOf(c))}
	case "RoundUp":
		return core.A{"n", bitsOf(w.up(numOf(c)))}
	case "Log":
		return core.A{"v", logs[ty](numOf(c))}
	case "RoundDown":
		return core.A{"n", bitsOf(w.down(numOf(c)))}
	case "Split":
		n, m := unlimb(c["n"]), unlimb(c["m"])
		per, last := cm.Split(uint(n), uint(m))
		full := uint64(0)
		if per > 0 && uint64(last) <= n {
			full = (n - uint64(last)) / uint64(per)
		}
		return core.A{"split", limbs(uint64(per)), limbs(uint64(last)), limbs(full)}
	case "Max":
		return core.A{"v", lists[ty].max(core.I(c, "a"), core.I(c, "b"))}
	case "Min":
		return core.A{"v", lists[ty].min(core.I(c, "a"), core.I(c, "b"))}
	case "Abs":
		return core.A{"v", abs[ty](core.I(c, "a"))}
	}
	panic(core.Bug("op"))
}

func TestN01(t *testing.T) {
	o := core.Open()
	core.Run(o, core.Opts{
		New: func(core.M) core.Obj { return nums{} }, Cfgs: []core.M{{}},
		Salt: 71, N: 20, Len: 400,
		Extra: func(one func(core.M, []core.M)) {
			var b []core.M
			add := func(c core.M) {
				if b = append(b, c); len(b) == 400 {
					one(core.M{}, b)
					b = nil
				}
			}
			unary := func(ty string, n uint64) {
				w := widths[ty]
				add(core.M{"op": "IsPow", "ty": ty, "n": bitsOf(n)})
				add(core.M{"op": "LastBit", "ty": ty, "n": bitsOf(n)})
				if n > 0 {
					add(core.M{"op": "RoundDown", "ty": ty, "n": bitsOf(n)})
					if n <= 1<<uint(w.bits-1) {
						add(core.M{"op": "RoundUp", "ty": ty, "n": bitsOf(n)})
					}
				}
			}
			for n := uint64(0); n < 256; n++ {
				unary("uint8", n)
				if core.Thorough() {
					unary("own8", n)
				}
			}
			if core.Thorough() {
				for n := uint64(0); n < 65536; n++ {
					unary("uint16", n)
				}
			}
			for _, ty := range names {
				w := widths[ty]
				for k := 0; k < w.bits; k++ {
					for d := -2; d <= 2; d++ {
						n := uint64(1)<<uint(k) + uint64(d)
						if w.bits < 64 {
							n &= 1<<uint(w.bits) - 1
						}
						unary(ty, n)
					}
				}
			}
			for _, ty := range logNames {
				for k := 0; k < logWidth(ty); k++ {
					for d := -2; d <= 2; d++ {
						n := uint64(1)<<uint(k) + uint64(d)
						if k == 0 && d < 0 {
							n = uint64(1)<<uint(logWidth(ty)-1)<<1 + uint64(d)
						}
						n &= uint64(1)<<uint(logWidth(ty)-1)<<1 - 1
						if n > 0 {
							add(core.M{"op": "Log", "ty": ty, "n": bitsOf(n)})
						}
					}
				}
			}
			for k := -1022; k <= 1023; k += 5 {
				add(core.M{"op": "FLog", "ty": "float64", "k": k, "m": 16384, "exact": true})
				add(core.M{"op": "FLog", "ty": "float64", "k": k, "m": 16385 + (k+1022)*7, "exact": false})
			}
			for k := -126; k <= 127; k++ {
				add(core.M{"op": "FLog", "ty": "float32", "k": k, "m": 16384, "exact": true})
				add(core.M{"op": "FLog", "ty": "float32", "k": k, "m": 16385 + (k+126)*64, "exact": false})
			}
			split := func(n, m uint64) {
				if m > 0 || n == 0 {
					add(core.M{"op": "Split", "n": limbs(n), "m": limbs(m)})
				}
			}
			top := uint64(40)
			if core.Thorough() {
				top = 200
			}
			for n := uint64(0); n <= top; n++ {
				for m := uint64(0); m <= top+2; m++ {
					split(n, m)
				}
			}
			edge := []uint64{0, 1, 2, 3, 7, 1<<16 + 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<52 + 1, 1<<53 - 1, 1<<53 + 1, 1<<54 + 3, 1<<62 + 1,
				1<<63 - 1, 1 << 63, 1<<63 + 1, math.MaxUint64 - 1, math.MaxUint64}
			for _, n := range edge {
				for _, m := range edge {
					split(n, m)
				}
			}
			for _, ty := range listNames {
				for i := 0; i < lists[ty].n(); i++ {
					for j := 0; j < lists[ty].n(); j++ {
						add(core.M{"op": "Max", "ty": ty, "a": i, "b": j})
						add(core.M{"op": "Min", "ty": ty, "a": i, "b": j})
					}
				}
			}
			for _, ty := range absNames {
				for i := -6; i <= 6; i++ {
					add(core.M{"op": "Abs", "ty": ty, "a": i})
				}
			}
			if b != nil {
				one(core.M{}, b)
			}
		},
		Rand: func(r *rand.Rand) (core.M, func(*rand.Rand, core.Obj) core.M) {
			num := func(bits int) uint64 {
				n := r.Uint64() >> uint(64-bits) >> uint(r.Intn(bits))
				if r.Intn(3) == 0 {
					n = new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(bits))).Uint64()
				}
				return n
			}
			return core.M{}, func(r *rand.Rand, _ core.Obj) core.M {
				ty := names[r.Intn(len(names))]
				w := widths[ty]
				n := num(w.bits)
				switch r.Intn(8) {
				case 6:
					ty = logNames[r.Intn(len(logNames))]
					return core.M{"op": "Log", "ty": ty, "n": bitsOf(num(logWidth(ty)) | 1)}
				case 7:
					m := 16384 + r.Intn(16384)
					ty, k := "float64", r.Intn(2046)-1022
					if r.Intn(2) == 0 {
						ty, k = "float32", r.Intn(250)-124
					}
					return core.M{"op": "FLog", "ty": ty, "k": k, "m": m, "exact": m == 16384}
				case 0:
					return core.M{"op": "IsPow", "ty": ty, "n": bitsOf(n)}
				case 1:
					return core.M{"op": "LastBit", "ty": ty, "n": bitsOf(n)}
				case 2:
					return core.M{"op": "RoundDown", "ty": ty, "n": bitsOf(n | 1)}
				case 3:
					if n == 0 || n > 1<<uint(w.bits-1) {
						n = 1
					}
					return core.M{"op": "RoundUp", "ty": ty, "n": bitsOf(n)}
				}
				a, b := num(64), num(64)
				if b == 0 {
					b = 1
				}
				if r.Intn(2) == 0 {
					b = b%1000 + 1
				}
				return core.M{"op": "Split", "n": limbs(a), "m": limbs(b)}
			}
		},
	})
	o.Close()
}
