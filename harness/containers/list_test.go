package containers

import (
	"math/rand"
	"testing"

	"github.com/ahKevinXy/go-web-tools/common/container/list"
	"github.com/ahKevinXy/go-web-tools/zzverif/core"
)

type lists struct {
	l  [2]*list.List[int]
	h  []*list.Element[int]
	id map[*list.Element[int]]int
}

func (s *lists) reg(e *list.Element[int]) int {
	if n, ok := s.id[e]; ok {
		return n
	}
	s.h = append(s.h, e)
	s.id[e] = len(s.h)
	return len(s.h)
}

func newLists(cfg core.M) core.Obj {
	s := &lists{id: map[*list.Element[int]]int{}}
	for i := range s.l {
		if cfg["kind"] == "zero" {
			s.l[i] = &list.List[int]{}
		} else {
			s.l[i] = list.New[int]()
		}
	}
	return s
}

func (s *lists) Do(c core.M) core.A {
	l := s.l[core.I(c, "l")-1]
	el := func(k string) *list.Element[int] { return s.h[core.I(c, k)-1] }
	hd := func(e *list.Element[int]) core.A {
		if e == nil {
			return core.A{"nil"}
		}
		return core.A{"h", s.reg(e)}
	}
	switch core.S(c, "op") {
	case "PushFront":
		return hd(l.PushFront(core.I(c, "v")))
	case "PushBack":
		return hd(l.PushBack(core.I(c, "v")))
	case "InsertBefore":
		return hd(l.InsertBefore(core.I(c, "v"), el("m")))
	case "InsertAfter":
		return hd(l.InsertAfter(core.I(c, "v"), el("m")))
	case "Remove":
		return core.A{"v", l.Remove(el("e"))}
	case "RemoveFront":
		return core.A{"v", l.RemoveFront()}
	case "RemoveBack":
		return core.A{"v", l.RemoveBack()}
	case "MoveToFront":
		l.MoveToFront(el("e"))
	case "MoveToBack":
		l.MoveToBack(el("e"))
	case "MoveBefore":
		l.MoveBefore(el("e"), el("m"))
	case "MoveAfter":
		l.MoveAfter(el("e"), el("m"))
	case "PushBackList":
		l.PushBackList(s.l[core.I(c, "m")-1])
	case "PushFrontList":
		l.PushFrontList(s.l[core.I(c, "m")-1])
	case "Clear":
		l.Clear()
	default:
		panic(core.Bug("op"))
	}
	return core.A{}
}

const limit = 2000

func (s *lists) Obs() interface{} {
	var ls core.A
	in := map[*list.Element[int]]bool{}
	for _, l := range s.l {
		fwd, bwd := core.A{}, core.A{}
		for e, n := l.Front(), 0; e != nil && n < limit; e, n = e.Next(), n+1 {
			fwd = append(fwd, core.A{s.reg(e), e.Value})
			in[e] = true
		}
		for e, n := l.Back(), 0; e != nil && n < limit; e, n = e.Prev(), n+1 {
			bwd = append(bwd, s.reg(e))
			in[e] = true
		}
		ls = append(ls, core.M{"fwd": fwd, "bwd": bwd, "len": l.Len(), "empty": l.Empty()})
	}
	stale := core.A{}
	for i, e := range s.h {
		if !in[e] && (e.Next() != nil || e.Prev() != nil) {
			stale = append(stale, i+1)
		}
	}
	return core.M{"lists": ls, "stale": stale}
}

func TestC01(t *testing.T) {
	o := core.Open()
	core.Run(o, core.Opts{
		New:  newLists,
		Cfgs: []core.M{{"kind": "new"}, {"kind": "zero"}},
		Salt: 1, N: 300, Len: 60, Big: 3, BigLen: 400,
		Rand: func(r *rand.Rand) (core.M, func(*rand.Rand, core.Obj) core.M) {
			kind := []string{"new", "zero"}[r.Intn(2)]
			nv := 1 + r.Intn(50)
			ops := []string{"PushFront", "PushBack", "InsertBefore", "InsertAfter", "Remove", "MoveToFront",
				"MoveToBack", "MoveBefore", "MoveAfter", "RemoveFront", "RemoveBack", "PushBackList", "PushFrontList", "Clear"}
			w := make([]int, len(ops))
			for i := range w {
				w[i] = 1 + r.Intn(8)
			}
			w[11], w[12], w[13] = r.Intn(2), r.Intn(2), r.Intn(2)
			big, step, most := core.Big, 0, 60
			if big {
				most = 250
			}
			w0 := w
			return core.M{"kind": kind}, func(r *rand.Rand, ob core.Obj) core.M {
				s := ob.(*lists)
				if step++; big {
					w = core.Wave(w0, step, 200, []int{0, 1, 2, 3}, []int{4, 9, 10})
					if r.Intn(50) > 0 {
						w[13] = 0
					}
				}
				for {
					op := ops[core.Pick(r, w)]
					c := core.M{"op": op, "l": 1 + r.Intn(2)}
					switch op {
					case "PushFront", "PushBack":
						c["v"] = r.Intn(nv)
					case "PushBackList", "PushFrontList":
						if len(s.h) > most {
							continue
						}
						c["m"] = 1 + r.Intn(2)
					case "RemoveFront", "RemoveBack", "Clear":
					default:
						if len(s.h) == 0 {
							continue
						}
						c["v"] = r.Intn(nv)
						// prefer recent handles, which are more often still in a list
						pick := func() int {
							if r.Intn(3) > 0 && len(s.h) > 6 {
								return len(s.h) - r.Intn(6)
							}
							return 1 + r.Intn(len(s.h))
						}
						c["e"], c["m"] = pick(), pick()
					}
					return c
				}
			}
		},
	})
	o.Close()
}
