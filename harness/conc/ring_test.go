package conc

import (
	"fmt"
	"math/rand"
	"testing"

	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/fix"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/round"
	"github.com/ahKevinXy/go-web-tools/zzverif/core"
)

type spsc interface {
	Push(int)
	Pop() int
	Peek() int
	MPush(...int)
	MPop(uint64) []int
	MPopCopy([]int)
	Cap() uint64
	Len() uint64
	Avail() uint64
	Empty() bool
	Full() bool
}

func ringOp(r spsc, c core.M) core.A {
	switch core.S(c, "op") {
	case "Push":
		r.Push(core.I(c, "v"))
	case "MPush":
		cp := append([]int{}, core.Is(c, "vs")...)
		r.MPush(cp...)
		for i := range cp {
			cp[i] = -7
		}
	case "Pop":
		return core.A{"v", r.Pop()}
	case "Peek":
		return core.A{"v", r.Peek()}
	case "MPop":
		return core.A{"vs", append([]int{}, r.MPop(uint64(core.I(c, "n")))...)}
	case "MPopCopy":
		dst := make([]int, core.I(c, "n"))
		for i := range dst {
			dst[i] = -1
		}
		r.MPopCopy(dst)
		return core.A{"vs", dst}
	case "Len":
		return core.A{"n", r.Len()}
	case "Avail":
		return core.A{"n", r.Avail()}
	case "Empty":
		return core.A{"b", r.Empty()}
	case "Full":
		return core.A{"b", r.Full()}
	}
	return core.A{}
}

func ringScript(r *rand.Rand, side, n, size int, v *int) []core.M {
	var l []core.M
	for len(l) < n {
		views := []string{"Len", "Avail", "Empty", "Full"}
		var c core.M
		if side == 0 {
			switch core.Pick(r, []int{6, 4, 1}) {
			case 0:
				*v++
				c = core.M{"op": "Push", "v": *v}
			case 1:
				vs := []int{}
				for k := r.Intn(size + 3); k > 0; k-- {
					*v++
					vs = append(vs, *v)
				}
				c = core.M{"op": "MPush", "vs": vs}
			case 2:
				c = core.M{"op": views[r.Intn(4)]}
			}
		} else {
			switch core.Pick(r, []int{5, 1, 3, 3, 1}) {
			case 0:
				c = core.M{"op": "Pop"}
			case 1:
				c = core.M{"op": "Peek"}
			case 2:
				c = core.M{"op": "MPop", "n": r.Intn(size + 3)}
			case 3:
				c = core.M{"op": "MPopCopy", "n": r.Intn(size + 3)}
			case 4:
				c = core.M{"op": views[r.Intn(4)]}
			}
		}
		l = append(l, c)
	}
	return l
}

func TestC10(t *testing.T) {
	o := core.Open()
	r := core.Rng(110)
	for k := 0; k < core.N(300); k++ {
		size := 1 + r.Intn(5)
		kind := []string{"fixed", "pow2"}[r.Intn(2)]
		seed := r.Int63()
		controlled(t, o, seed, core.M{"kind": kind, "n": size}, true, func(x *run) {
			var q spsc
			if kind == "fixed" {
				q = fix.New[int](uint64(size))
			} else {
				q = round.New[int](uint64(size))
			}
			v := 0
			for k := x.r.Intn(2 * size); k > 0; k-- { // start anywhere in the storage
				q.Push(0)
				q.Pop()
			}
			for side := 0; side < 2; side++ {
				side, l := side, ringScript(x.r, side, 4+x.r.Intn(core.Len(12)), int(q.Cap()), &v)
				go func() {
					for _, c := range l {
						x.h.call(side+1, c, func() core.A { return ringOp(q, c) })
					}
				}()
			}
		})
	}
	fmt.Println("cut", cut)
	o.Close()
}
