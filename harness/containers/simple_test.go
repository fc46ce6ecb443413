package containers

import (
	"math/rand"
	"testing"

	"github.com/ahKevinXy/go-web-tools/common/container/deque"
	"github.com/ahKevinXy/go-web-tools/common/container/set"
	stack "github.com/ahKevinXy/go-web-tools/common/container/stack"
	"github.com/ahKevinXy/go-web-tools/zzverif/core"
)

type dqst struct {
	d [2]*deque.Deque[int]
	s [2]*stack.Stack[int]
}

func (x *dqst) Do(c core.M) core.A {
	o := core.I(c, "o") - 1
	d, s := x.d[o], x.s[o]
	switch core.S(c, "op") {
	case "PushFront":
		d.PushFront(core.I(c, "v"))
	case "PushBack":
		d.PushBack(core.I(c, "v"))
	case "PopFront":
		return core.A{"v", d.PopFront()}
	case "PopBack":
		return core.A{"v", d.PopBack()}
	case "Push":
		s.Push(core.I(c, "v"))
	case "Pop":
		return core.A{"v", s.Pop()}
	case "Peek":
		return core.A{"v", s.Peek()}
	default:
		panic(core.Bug("op"))
	}
	return core.A{}
}

func (x *dqst) Obs() interface{} {
	d, s := core.A{}, core.A{}
	for i := range x.d {
		d = append(d, core.M{"len": x.d[i].Len(), "empty": x.d[i].Empty()})
		s = append(s, core.M{"len": x.s[i].Len(), "empty": x.s[i].Empty()})
	}
	return core.M{"d": d, "s": s}
}

func TestC02(t *testing.T) {
	o := core.Open()
	core.Run(o, core.Opts{
		New: func(core.M) core.Obj {
			x := &dqst{}
			for i := range x.d {
				x.d[i], x.s[i] = deque.New[int](), stack.New[int]()
			}
			return x
		},
		Cfgs: []core.M{{}}, Salt: 2, N: 400, Len: 120, Big: 4, BigLen: 3000,
		Rand: func(r *rand.Rand) (core.M, func(*rand.Rand, core.Obj) core.M) {
			ops := []string{"PushFront", "PushBack", "PopFront", "PopBack", "Push", "Pop", "Peek"}
			w := make([]int, len(ops))
			for i := range w {
				w[i] = 1 + r.Intn(6)
			}
			big, step := core.Big, 0
			return core.M{}, func(r *rand.Rand, _ core.Obj) core.M {
				w := w
				if step++; big {
					w = core.Wave(w, step, 900, []int{0, 1, 4}, []int{2, 3, 5})
				}
				return core.M{"op": ops[core.Pick(r, w)], "o": 1 + r.Intn(2), "v": r.Intn(1000)}
			}
		},
	})
	o.Close()
}

const setDom = 12

type sets [2]*set.Set[int]

func (x *sets) Do(c core.M) core.A {
	s, e := x[core.I(c, "o")-1], core.I(c, "e")
	switch core.S(c, "op") {
	case "Add":
		s.Add(e)
	case "Remove":
		s.Remove(e)
	case "Contains":
		return core.A{"b", s.Contains(e)}
	default:
		panic(core.Bug("op"))
	}
	return core.A{}
}

func (x *sets) Obs() interface{} {
	a := core.A{}
	for _, s := range x {
		has := core.A{}
		for e := 1; e <= setDom; e++ {
			has = append(has, s.Contains(e))
		}
		a = append(a, core.M{"has": has, "len": s.Len(), "empty": s.Empty()})
	}
	return a
}

func TestC03(t *testing.T) {
	o := core.Open()
	core.Run(o, core.Opts{
		New:  func(core.M) core.Obj { return &sets{set.New[int](), set.New[int]()} },
		Cfgs: []core.M{{}}, Salt: 3, N: 400, Len: 100, Big: 4, BigLen: 2500,
		Rand: func(r *rand.Rand) (core.M, func(*rand.Rand, core.Obj) core.M) {
			ops := []string{"Add", "Remove", "Contains"}
			w := []int{1 + r.Intn(6), 1 + r.Intn(6), 1}
			big, step, dom := core.Big, 0, setDom
			if big {
				dom = 700
			}
			return core.M{}, func(r *rand.Rand, _ core.Obj) core.M {
				w := w
				if step++; big {
					w = core.Wave(w, step, 800, []int{0}, []int{1})
				}
				return core.M{"op": ops[core.Pick(r, w)], "o": 1 + r.Intn(2), "e": 1 + r.Intn(dom)}
			}
		},
	})
	o.Close()
}
