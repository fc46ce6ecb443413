package containers

import (
	"math"
	"math/rand"
	"reflect"
	"testing"
	"unsafe"

	"github.com/ahKevinXy/go-web-tools/common/container/heap"
	"github.com/ahKevinXy/go-web-tools/common/container/meap"
	"github.com/ahKevinXy/go-web-tools/common/container/pqueue"
	reap "github.com/ahKevinXy/go-web-tools/common/container/reap"
	"github.com/ahKevinXy/go-web-tools/zzverif/core"
)

type item struct{ id, p int }

func less(a, b *item) bool { return a.p < b.p }

type anyHeap interface {
	Push(*item)
	Pop() *item
	Peek() *item
	Len() int
	Empty() bool
}
type fixer interface {
	Remove(int) *item
	Fix(int)
}

type heapObj struct {
	h     anyHeap
	cfg   core.M
	items []*item
}

func newHeap(cfg core.M) core.Obj {
	x := &heapObj{cfg: cfg}
	x.make(nil)
	return x
}

func (x *heapObj) make(init []*item) {
	switch x.cfg["kind"] {
	case "heap":
		x.h = heap.New(init, less)
	case "pq":
		x.h = pqueue.New(init, less)
	default:
		n := core.I2(x.cfg, "real", core.I(x.cfg, "n"))
		x.h = heap.NewN(n, less)
		for _, i := range init {
			x.h.Push(i)
		}
	}
}

// pos finds where the heap keeps an element: the position Remove and Fix mean.  It looks for the
// slice of elements inside the heap, whatever it is called; without one only the top is known.
func (x *heapObj) pos(it *item) int {
	v := reflect.ValueOf(x.h).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == reflect.TypeOf([]*item(nil)) {
			s := *(*[]*item)(unsafe.Pointer(f.UnsafeAddr()))
			for k, y := range s {
				if y == it {
					return k
				}
			}
			return -1
		}
	}
	if x.h.Len() > 0 && x.h.Peek() == it {
		return 0
	}
	return -1
}

func (x *heapObj) add(p int) *item {
	it := &item{len(x.items) + 1, p}
	x.items = append(x.items, it)
	return it
}

func el(it *item) core.A {
	if it == nil {
		return core.A{"nil"}
	}
	return core.A{"e", it.id}
}

func (x *heapObj) Do(c core.M) core.A {
	switch core.S(c, "op") {
	case "New":
		x.items = nil
		var init []*item
		for _, p := range core.Is(c, "ps") {
			init = append(init, x.add(p))
		}
		x.make(init)
	case "Push":
		x.h.Push(x.add(core.I(c, "p")))
	case "Pop":
		return el(x.h.Pop())
	case "Peek":
		return el(x.h.Peek())
	case "Remove":
		if f, ok := x.h.(fixer); ok {
			return el(f.Remove(core.I(c, "i")))
		}
		return core.A{"skip"}
	case "Fix":
		f, ok := x.h.(fixer)
		if !ok {
			return core.A{"skip"}
		}
		it := x.items[core.I(c, "e")-1]
		k := x.pos(it)
		if k < 0 {
			return core.A{"skip"}
		}
		it.p = core.I(c, "p")
		f.Fix(k)
	case "BadArity":
		heap.NewN(core.I(c, "n"), less)
	default:
		panic(core.Bug("op"))
	}
	return core.A{}
}

func (x *heapObj) Obs() interface{} {
	return core.M{"len": x.h.Len(), "empty": x.h.Empty(), "peek": core.Try(func() core.A { return el(x.h.Peek()) })}
}

func perms(n, k int, f func([]int)) {
	// all sequences of length n over 1..k
	a := make([]int, n)
	var rec func(int)
	rec = func(i int) {
		if i == n {
			f(append([]int{}, a...))
			return
		}
		for v := 1; v <= k; v++ {
			a[i] = v
			rec(i + 1)
		}
	}
	rec(0)
}

func drain(n int) []core.M {
	var cs []core.M
	for i := 0; i < n; i++ {
		cs = append(cs, core.M{"op": "Pop"})
	}
	return cs
}

func heapDriver(t *testing.T, cfgs []core.M, salt int64, maxN int, randCfg func(r *rand.Rand) core.M) {
	o := core.Open()
	core.Run(o, core.Opts{
		New: newHeap, Cfgs: cfgs, Salt: salt, N: 300, Len: 150, Big: 4, BigLen: 1500,
		Extra: func(one func(core.M, []core.M)) {
			for _, cfg := range cfgs {
				cfg := cfg
				// every priority sequence of length <= maxN built at once, then drained, after
				// removing one position or not
				for n := 0; n <= maxN; n++ {
					perms(n, n, func(ps []int) {
						one(cfg, append([]core.M{{"op": "New", "ps": ps}}, drain(n+1)...))
						if cfg["kind"] != "pq" && n == maxN {
							for i := 1; i < n; i++ {
								one(cfg, append([]core.M{{"op": "New", "ps": ps}, {"op": "Remove", "i": i}}, drain(n-1)...))
							}
						}
					})
				}
				if cfg["kind"] == "heapn" {
					for _, n := range []int{1, 0, -1, -5} {
						one(cfg, []core.M{{"op": "BadArity", "n": n}})
					}
				}
			}
		},
		Rand: func(r *rand.Rand) (core.M, func(*rand.Rand, core.Obj) core.M) {
			cfg := randCfg(r)
			np := []int{2, 5, 20, 1000}[r.Intn(4)]
			w := []int{4 + r.Intn(8), r.Intn(6), r.Intn(2), r.Intn(4), r.Intn(5)}
			var pend []core.M
			first := true
			w0, big, step := w, core.Big, 0
			return cfg, func(r *rand.Rand, ob core.Obj) core.M {
				x := ob.(*heapObj)
				if first {
					first = false
					n := r.Intn(40)
					if big {
						n = r.Intn(1200)
					}
					if n > 4 {
						ps := make([]int, n)
						for i := range ps {
							ps[i] = r.Intn(np)
						}
						return core.M{"op": "New", "ps": ps}
					}
				}
				if len(pend) > 0 {
					c := pend[0]
					pend = pend[1:]
					return c
				}
				if step++; big {
					w = core.Wave(w0, step, 300, []int{0}, []int{1, 3})
				}
				for {
					op := []string{"Push", "Pop", "Peek", "Remove", "Fix"}[core.Pick(r, w)]
					c := core.M{"op": op}
					switch op {
					case "Push":
						c["p"] = r.Intn(np)
					case "Remove":
						if x.h.Len() == 0 {
							continue
						}
						c["i"] = r.Intn(x.h.Len())
					case "Fix":
						if len(x.items) == 0 {
							continue
						}
						c["e"], c["p"] = 1+r.Intn(len(x.items)), r.Intn(np)
					}
					if r.Intn(60) == 0 && !big || big && r.Intn(2000) == 0 {
						pend = drain(x.h.Len() + 1)
					}
					return c
				}
			}
		},
	})
	o.Close()
}

func TestC04(t *testing.T) {
	n := 5
	if core.Thorough() {
		n = 6
	}
	cfgs := []core.M{{"kind": "heap"}, {"kind": "pq"}}
	heapDriver(t, cfgs, 4, n, func(r *rand.Rand) core.M { return cfgs[r.Intn(2)] })
}

func TestC05(t *testing.T) {
	var cfgs []core.M
	ns := []int{2, 3, 4, 5, 6, 7, 9}
	if core.Thorough() {
		ns = []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16}
	}
	for _, n := range ns {
		cfgs = append(cfgs, core.M{"kind": "heapn", "n": n})
	}
	heapDriver(t, cfgs, 5, 4, func(r *rand.Rand) core.M {
		cfg := core.M{"kind": "heapn", "n": 2 + r.Intn(12)}
		switch r.Intn(8) {
		case 0:
			cfg["n"] = 14 + r.Intn(120)
		case 1: // larger than any heap
			cfg["n"] = 1 << 30
			cfg["real"] = []int{math.MaxInt, math.MaxInt - 1, math.MaxInt/2 + 1, math.MaxInt / 3, 1 << 62, 1<<62 + 1, 1 << 61, 1<<61 - 1, 1 << 32, 1<<31 - 1, 6148914691236517205, 3689348814741910323}[r.Intn(12)]
		}
		return cfg
	})
}

const keyDom = 20

type meapObj struct{ h *meap.Meap[int, int] }

func (x *meapObj) Do(c core.M) core.A {
	h := x.h
	e := func(e meap.Entry[int, int]) core.A { return core.A{"e", e.Key, e.Value} }
	switch core.S(c, "op") {
	case "Push":
		h.Push(core.I(c, "k"), core.I(c, "v"))
	case "Pop":
		return e(h.Pop())
	case "Peek":
		return e(h.Peek())
	case "Remove":
		h.Remove(core.I(c, "k"))
	case "Get":
		v, ok := h.Get(core.I(c, "k"))
		return core.A{"v", v, ok}
	case "Contains":
		return core.A{"b", h.Contains(core.I(c, "k"))}
	default:
		panic(core.Bug("op"))
	}
	return core.A{}
}

func (x *meapObj) Obs() interface{} {
	m := core.A{}
	for k := 1; k <= keyDom; k++ {
		v, ok := x.h.Get(k)
		if ok != x.h.Contains(k) {
			m = append(m, core.A{"lookup and membership disagree"})
		} else if ok {
			m = append(m, core.A{v})
		} else {
			m = append(m, core.A{})
		}
	}
	return core.M{"map": m, "len": x.h.Len(), "empty": x.h.Empty(),
		"peek": core.Try(func() core.A { e := x.h.Peek(); return core.A{"e", e.Key, e.Value} })}
}

func TestC06(t *testing.T) {
	o := core.Open()
	core.Run(o, core.Opts{
		New: func(core.M) core.Obj {
			return &meapObj{meap.New(func(a, b meap.Entry[int, int]) bool { return a.Value < b.Value })}
		},
		Cfgs: []core.M{{}}, Salt: 6, N: 300, Len: 120, Big: 4, BigLen: 1500,
		Rand: func(r *rand.Rand) (core.M, func(*rand.Rand, core.Obj) core.M) {
			ops := []string{"Push", "Pop", "Peek", "Remove", "Get", "Contains"}
			w := []int{6 + r.Intn(8), r.Intn(6), 1, r.Intn(6), 1, 1}
			nv := []int{2, 6, 500}[r.Intn(3)]
			nk := []int{4, 9, keyDom}[r.Intn(3)]
			big, step := core.Big, 0
			if big {
				nk = 600
			}
			return core.M{}, func(r *rand.Rand, _ core.Obj) core.M {
				w := w
				if step++; big {
					w = core.Wave(w, step, 500, []int{0}, []int{1, 3})
				}
				return core.M{"op": ops[core.Pick(r, w)], "k": 1 + r.Intn(nk), "v": r.Intn(nv)}
			}
		},
	})
	o.Close()
}

type reapObj struct {
	h *reap.Reap[*item]
	e []*reap.Entry[*item]
}

func (x *reapObj) Do(c core.M) core.A {
	h := x.h
	e := func(i *item) core.A { return core.A{"e", i.id, i.p} }
	switch core.S(c, "op") {
	case "Push":
		x.e = append(x.e, h.Push(&item{len(x.e) + 1, core.I(c, "p")}))
		return core.A{"h", len(x.e)}
	case "Pop":
		return e(h.Pop())
	case "Peek":
		return e(h.Peek())
	case "Remove":
		return core.A{"b", h.Remove(x.e[core.I(c, "e")-1])}
	case "SetValue":
		k := core.I(c, "e")
		return core.A{"b", h.SetValue(x.e[k-1], &item{k, core.I(c, "p")})}
	}
	panic(core.Bug("op"))
}

func (x *reapObj) Obs() interface{} {
	v := core.A{}
	for i, e := range x.e {
		if e.Value().id != i+1 {
			v = append(v, "foreign value")
		} else {
			v = append(v, e.Value().p)
		}
	}
	return core.M{"len": x.h.Len(), "empty": x.h.Empty(), "vals": v,
		"peek": core.Try(func() core.A { e := x.h.Peek(); return core.A{"e", e.id} })}
}

func TestC07(t *testing.T) {
	o := core.Open()
	core.Run(o, core.Opts{
		New:  func(core.M) core.Obj { return &reapObj{h: reap.New(less)} },
		Cfgs: []core.M{{}}, Salt: 7, N: 300, Len: 90, Big: 3, BigLen: 800,
		Rand: func(r *rand.Rand) (core.M, func(*rand.Rand, core.Obj) core.M) {
			w := []int{5 + r.Intn(8), r.Intn(6), 1, r.Intn(6), r.Intn(6)}
			np := []int{2, 6, 500}[r.Intn(3)]
			w0, big, step := w, core.Big, 0
			return core.M{}, func(r *rand.Rand, ob core.Obj) core.M {
				x := ob.(*reapObj)
				if step++; big {
					w = core.Wave(w0, step, 300, []int{0}, []int{1, 3})
				}
				for {
					op := []string{"Push", "Pop", "Peek", "Remove", "SetValue"}[core.Pick(r, w)]
					c := core.M{"op": op, "p": r.Intn(np)}
					if op == "Remove" || op == "SetValue" {
						if len(x.e) == 0 {
							continue
						}
						c["e"] = 1 + r.Intn(len(x.e))
					}
					return c
				}
			}
		},
	})
	o.Close()
}
