package containers

import (
	"math"
	"math/rand"
	"testing"

	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/fix"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/round"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/unbounded"
	"github.com/ahKevinXy/go-web-tools/zzverif/core"
)

type anyRing interface {
	Push(int)
	Pop() int
	Peek() int
	MPush(...int)
	MPop(uint64) []int
	MPopCopy([]int)
	Reset()
	Cap() uint64
	Len() uint64
	Avail() uint64
	Empty() bool
	Full() bool
}

type ringObj struct {
	r    anyRing
	kind string
}

func newRing(cfg core.M) core.Obj {
	n := uint64(core.I(cfg, "n"))
	x := &ringObj{kind: core.S(cfg, "kind")}
	switch x.kind {
	case "fixed":
		x.r = fix.New[int](n)
	case "pow2":
		x.r = round.New[int](n)
	case "grow":
		x.r = unbounded.New[int](n)
	}
	return x
}

var badSizes = map[string][]uint64{
	"fixed": {0, math.MaxInt64 + 1, 1<<63 + 12345, math.MaxUint64},
	"pow2":  {0, 1<<62 + 1, 1<<63 - 1, 1 << 63, 1<<63 + 1, math.MaxUint64 - 1, math.MaxUint64},
}

var bigSizes = map[string][]uint64{
	"fixed": {1 << 40, math.MaxInt64},
	"pow2":  {1 << 40, 1<<40 + 1, 1<<62 - 1, 1 << 62},
}

func (x *ringObj) create(n uint64) core.A {
	var c uint64
	if x.kind == "fixed" {
		c = fix.New[struct{}](n).Cap()
		if c != n {
			return core.A{"wrong capacity"}
		}
	} else if c = round.New[struct{}](n).Cap(); c < n || c/2 >= n {
		return core.A{"wrong capacity"}
	}
	return core.A{}
}

func (x *ringObj) Do(c core.M) core.A {
	r := x.r
	switch core.S(c, "op") {
	case "Push":
		r.Push(core.I(c, "v"))
	case "MPush":
		vs := core.Is(c, "vs")
		cp := append(make([]int, 0, len(vs)+3), vs...)
		r.MPush(cp...)
		for i := range cp { // the caller may reuse its slice
			cp[i] = -7
		}
	case "Pop":
		return core.A{"v", r.Pop()}
	case "Peek":
		return core.A{"v", r.Peek()}
	case "MPop":
		vs := append([]int{}, r.MPop(uint64(core.I(c, "n")))...)
		return core.A{"vs", vs}
	case "MPopCopy":
		n := core.I(c, "n")
		all := make([]int, n+5) // what lies beyond the slice is the caller's
		for i := range all {
			all[i] = -1
		}
		dst := all[:n]
		r.MPopCopy(dst)
		for _, v := range all[n:] {
			if v != -1 {
				return core.A{"spilled", all}
			}
		}
		return core.A{"vs", dst}
	case "Reset":
		r.Reset()
	case "Grow":
		r.(*unbounded.Ring[int]).Grow(uint64(core.I(c, "n")))
	case "BadNew":
		if x.create(badSizes[x.kind][core.I(c, "k")]) != nil {
			return core.A{"created"}
		}
	case "BigNew":
		return x.create(bigSizes[x.kind][core.I(c, "k")])
	default:
		panic(core.Bug("op"))
	}
	return core.A{}
}

func (x *ringObj) Obs() interface{} {
	r := x.r
	return core.M{"len": r.Len(), "cap": r.Cap(), "avail": r.Avail(), "empty": r.Empty(), "full": r.Full(),
		"peek": core.Try(func() core.A { return core.A{"v", r.Peek()} })}
}

func ringDriver(salt int64, cfgs []core.M, rc func(*rand.Rand) core.M, extra func(func(core.M, []core.M))) {
	o := core.Open()
	core.Run(o, core.Opts{
		New: newRing, Cfgs: cfgs, Salt: salt, N: 400, Len: 120, Extra: extra, Big: 6, BigLen: 150,
		Rand: func(r *rand.Rand) (core.M, func(*rand.Rand, core.Obj) core.M) {
			cfg := rc(r)
			big, most := core.Big, 200
			if big {
				cfg["n"] = []int{100, 255, 256, 257, 1000, 1024, 1500}[r.Intn(7)]
				most = 3000
			}
			ops := []string{"Push", "Pop", "Peek", "MPush", "MPop", "MPopCopy", "Reset", "Grow"}
			w := []int{1 + r.Intn(8), 1 + r.Intn(8), 1, r.Intn(6), r.Intn(6), r.Intn(6), r.Intn(2), r.Intn(2)}
			if cfg["kind"] != "grow" {
				w[7] = 0
			}
			v := 0
			return cfg, func(r *rand.Rand, ob core.Obj) core.M {
				x := ob.(*ringObj)
				for {
					c := core.M{"op": ops[core.Pick(r, w)]}
					switch c["op"] {
					case "Push":
						v++
						c["v"] = v
					case "MPush":
						if x.r.Cap() > 3000 && !(big && r.Intn(3) == 0 && x.r.Cap() < 20000) {
							continue
						}
						vs := []int{}
						for n := r.Intn(int(x.r.Cap()) + 4); n > 0; n-- {
							v++
							vs = append(vs, v)
						}
						c["vs"] = vs
					case "MPop", "MPopCopy":
						c["n"] = r.Intn(int(x.r.Len()) + 3)
					case "Grow":
						if int(x.r.Cap()) > most || r.Intn(3) > 0 {
							continue
						}
						c["n"] = r.Intn(int(x.r.Cap())*3 + 2)
					}
					return c
				}
			}
		},
	})
	o.Close()
}

// The walks of MCRing_fixed<n> are run on rings of that capacity: the size asked for is in the environment.
func TestC08(t *testing.T) {
	n := core.Env("VERIF_RING", 0)
	cfgs := []core.M{{"kind": "fixed", "n": n}}
	if n == 0 {
		cfgs = nil
	}
	for k := 1; k <= n; k++ { // every request that rounds up to n
		if n&(n-1) == 0 && 2*k > n {
			cfgs = append(cfgs, core.M{"kind": "pow2", "n": k})
		}
	}
	ringDriver(8, cfgs, func(r *rand.Rand) core.M {
		return core.M{"kind": []string{"fixed", "pow2"}[r.Intn(2)], "n": 1 + r.Intn(20)}
	}, func(one func(core.M, []core.M)) {
		for _, kind := range []string{"fixed", "pow2"} {
			for k := range badSizes[kind] {
				one(core.M{"kind": kind, "n": 1}, []core.M{{"op": "BadNew", "k": k}})
			}
			for k := range bigSizes[kind] {
				one(core.M{"kind": kind, "n": 1}, []core.M{{"op": "BigNew", "k": k}})
			}
			for n := 1; n <= 70; n++ {
				one(core.M{"kind": kind, "n": n}, []core.M{{"op": "Push", "v": 5}, {"op": "Pop"}})
			}
		}
	})
}

func TestC09(t *testing.T) {
	n := core.Env("VERIF_RING", 0)
	ringDriver(9, []core.M{{"kind": "grow", "n": n}}, func(r *rand.Rand) core.M {
		return core.M{"kind": "grow", "n": r.Intn(9)}
	}, nil)
}
