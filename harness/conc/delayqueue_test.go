package conc

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"testing"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/timer/delayqueue"
	"github.com/ahKevinXy/go-web-tools/zzverif/core"
)

type dq struct {
	q      *delayqueue.DelayQueue[int]
	ctx    map[int]context.Context
	cancel map[int]context.CancelFunc
	chans  []<-chan int
}

func opt(v int, ok bool) core.A {
	if ok {
		return core.A{"v", v}
	}
	return core.A{"none"}
}

// never: a delay of so many seconds stands for the longest there is; no run lasts that long
const never = int64(1 << 30)

func dqDur(c core.M) time.Duration {
	p := c["d"].(core.A)
	if p[0].(int64) == never {
		return math.MaxInt64
	}
	return time.Duration(p[0].(int64))*time.Second + time.Duration(p[1].(int64))
}

func (x *dq) do(c core.M) core.A {
	switch core.S(c, "op") {
	case "Push":
		x.q.Push(core.I(c, "v"), dqDur(c))
	case "Pop":
		return opt(x.q.Pop())
	case "Take":
		return opt(x.q.Take(x.ctx[core.I(c, "x")]))
	case "Peek":
		return opt(x.q.Peek())
	case "Empty":
		return core.A{"b", x.q.Empty()}
	case "Cancel":
		x.cancel[core.I(c, "x")]()
	case "Recv":
		v, ok := <-x.chans[core.I(c, "ch")-1]
		if ok {
			return core.A{"v", v}
		}
		return core.A{"closed"}
	}
	return core.A{}
}

// floored pair of a possibly negative duration
func fpair(d time.Duration) core.A {
	s, n := int64(d/time.Second), int64(d%time.Second)
	if n < 0 {
		s, n = s-1, n+int64(time.Second)
	}
	return core.A{s, n}
}

func dqDelay(r *rand.Rand, unit time.Duration) time.Duration {
	switch core.Pick(r, []int{3, 8, 4, 1, 1, 1}) {
	case 0:
		return 0
	case 1:
		return time.Duration(r.Intn(4)) * unit
	case 2:
		return time.Duration(r.Int63n(int64(3 * unit)))
	case 3:
		return time.Duration(r.Intn(3))*unit + 1
	case 4:
		return -time.Duration(r.Int63n(int64(unit)))
	}
	return []time.Duration{1000 * time.Hour, time.Duration(never) * time.Second}[r.Intn(2)]
}

func TestT01(t *testing.T) {
	o := core.Open()
	r := core.Rng(2010)
	for k := 0; k < core.N(300); k++ {
		controlled(t, o, r.Int63(), core.M{}, true, func(x *run) {
			unit := []time.Duration{1, 10, time.Millisecond, time.Second}[x.r.Intn(4)]
			since(x)
			d := &dq{q: delayqueue.New[int](), ctx: map[int]context.Context{}, cancel: map[int]context.CancelFunc{}}
			nctx := 1 + x.r.Intn(3)
			for i := 1; i <= nctx; i++ {
				d.ctx[i], d.cancel[i] = context.WithCancel(context.Background())
			}
			x.cleanup = func() {
				for _, c := range d.cancel {
					c()
				}
			}
			if x.r.Intn(2) == 0 {
				x.lag(unit)
			}
			for nch := core.Pick(x.r, []int{5, 3, 1}); nch > 0; nch-- {
				c := core.M{"op": "Channel", "x": 1 + x.r.Intn(nctx), "size": x.r.Intn(3)}
				x.h.ev = append(x.h.ev, core.M{"e": "call", "th": 0, "c": c, "r": core.A{}}, core.M{"e": "ret", "th": 0})
				d.chans = append(d.chans, d.q.Channel(d.ctx[core.I(c, "x")], core.I(c, "size")))
			}
			v := 0
			threads := 2 + x.r.Intn(4)
			x.s.IdleMax = 30 + 5*threads*core.Len(5)
			for th := 1; th <= threads; th++ {
				th := th
				var l []core.M
				var gaps []time.Duration
				role := x.r.Intn(4)
				if th == 1 {
					role = 0
				}
				if th == 2 {
					role = 1 + x.r.Intn(2)
				}
				for n := 1 + x.r.Intn(core.Len(5)); n > 0; n-- {
					// push, pop, take, peek, empty, cancel, recv
					w := [][]int{{8, 1, 0, 1, 1, 1, 0}, {0, 0, 8, 0, 0, 1, 0}, {0, 1, 2, 0, 0, 1, 8}, {4, 4, 3, 1, 1, 1, 3}}[role]
					if len(d.chans) == 0 {
						w[2] += w[6]
						w[6] = 0
					}
					var c core.M
					switch core.Pick(x.r, w) {
					case 0:
						v++
						c = core.M{"op": "Push", "v": v, "d": fpair(dqDelay(x.r, unit))}
					case 1:
						c = core.M{"op": "Pop"}
					case 2:
						c = core.M{"op": "Take", "x": 1 + x.r.Intn(nctx)}
					case 3:
						c = core.M{"op": "Peek"}
					case 4:
						c = core.M{"op": "Empty"}
					case 5:
						c = core.M{"op": "Cancel", "x": 1 + x.r.Intn(nctx)}
					case 6:
						c = core.M{"op": "Recv", "ch": 1 + x.r.Intn(len(d.chans))}
					}
					g := time.Duration(0)
					if x.r.Intn(3) == 0 {
						g = time.Duration(x.r.Intn(3)) * unit
						if x.r.Intn(3) == 0 {
							g++
						}
					}
					l, gaps = append(l, c), append(gaps, g)
				}
				go func() {
					for i, c := range l {
						time.Sleep(gaps[i])
						x.h.call(th, c, func() core.A { return d.do(c) })
					}
				}()
			}
		})
	}
	fmt.Println("cut", cut)
	o.Close()
}

// the walks of the model, one goroutine
func TestT01Walks(t *testing.T) {
	o := core.Open()
	for _, w := range core.Walks() {
		for _, unit := range []time.Duration{1, 7 * time.Millisecond} {
			w := w
			controlled(t, o, 1, core.M{}, true, func(x *run) {
				since(x)
				d := &dq{q: delayqueue.New[int](), ctx: map[int]context.Context{}, cancel: map[int]context.CancelFunc{}}
				d.ctx[1], d.cancel[1] = context.WithCancel(context.Background())
				x.cleanup = func() { d.cancel[1]() }
				x.s.IdleMax = 2*len(w) + 10
				go func() {
					v := 0
					for _, c := range w {
						switch core.S(c, "op") {
						case "Adv":
							time.Sleep(unit)
							continue
						case "Push":
							v++
							dd := time.Duration(c["d"].([]interface{})[0].(float64)) * unit
							c = core.M{"op": "Push", "v": v, "d": fpair(dd)}
						}
						x.h.call(1, c, func() core.A { return d.do(c) })
					}
				}()
			})
		}
	}
	fmt.Println("cut", cut)
	o.Close()
}
