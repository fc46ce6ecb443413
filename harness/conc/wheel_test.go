package conc

import (
	"context"
	"fmt"
	"math/rand"
	"regexp"
	"runtime"
	"strings"
	"testing"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/timer/timingwheel"
	"github.com/ahKevinXy/go-web-tools/zzverif/core"
	"github.com/ahKevinXy/go-web-tools/zzverif/vsched"
)

type wheel struct {
	x      *run
	tw     *timingwheel.TimingWheel
	ctx    map[int]context.Context
	cancel map[int]context.CancelFunc
	t0     time.Time
	timers map[int]*timingwheel.Timer
	scheds map[int]*sched
	acts   map[int]*act
}

// sched names up to left times: from+every, or (anchored) the next of anchor + k*every after from;
// the first one possibly now or in the past
type sched struct {
	w        *wheel
	id       int
	every    time.Duration
	anchor   time.Duration
	anchored bool
	past     time.Duration // the first time lies this much before the others (0: it does not)
	left     int
}

func (s *sched) Next(from time.Time) time.Time {
	vsched.Point()
	var to time.Time
	e := core.M{"e": "next", "id": s.id, "from": fpair(from.Sub(s.w.t0)), "to": core.A{}}
	if s.left > 0 {
		s.left--
		to = from.Add(s.every)
		if s.anchored {
			d := from.Sub(s.w.t0) - s.anchor
			k := d / s.every
			if d < 0 {
				k = -1
			}
			to = s.w.t0.Add(s.anchor + (k+1)*s.every)
		}
		if s.past != 0 {
			to, s.past = from.Add(s.every-s.past), 0
		}
		e["to"] = fpair(to.Sub(s.w.t0))
	}
	s.w.x.h.add(e)
	return to
}

func (w *wheel) task(id int) func() {
	return func() {
		vsched.Point()
		w.x.h.add(core.M{"e": "run", "id": id})
		b := w.acts[id]
		if b == nil {
			return
		}
		time.Sleep(b.sleep)
		w.x.h.mu.Lock()
		c := b.c
		if c != nil && core.S(c, "op") == "Stop" && w.timers[id] == nil {
			c = nil // its timer is not known yet
		}
		if c != nil {
			b.c = nil
		}
		w.x.h.mu.Unlock()
		if c != nil {
			w.x.h.call(b.th, c, func() core.A { return w.do(c) })
		}
	}
}

// act: what a task does besides being run: takes time, each time, and calls the wheel, once
type act struct {
	sleep time.Duration
	th    int
	c     core.M
}

func (w *wheel) do(c core.M) core.A {
	switch core.S(c, "op") {
	case "After":
		id := core.I(c, "id")
		t := w.tw.AfterFunc(dqDur(c), w.task(id))
		w.x.h.mu.Lock()
		w.timers[id] = t
		w.x.h.mu.Unlock()
	case "Schedule":
		id := core.I(c, "id")
		t := w.tw.ScheduleFunc(w.scheds[id], w.task(id))
		w.x.h.mu.Lock()
		w.timers[id] = t
		w.x.h.mu.Unlock()
		if t == nil {
			return core.A{"nil"}
		}
		return core.A{"t"}
	case "Stop":
		w.x.h.mu.Lock()
		t := w.timers[core.I(c, "id")]
		w.x.h.mu.Unlock()
		return core.A{"b", t.Stop()}
	case "Cancel":
		w.cancel[core.I(c, "x")]()
	case "Run":
		w.tw.Run(w.ctx[core.I(c, "x")])
	}
	return core.A{}
}

var bubbleRE = regexp.MustCompile(`synctest bubble (\d+)`)

// left counts the goroutines of this bubble that run the wheel's code
func left(frame string) int {
	b := make([]byte, 1<<20)
	b = b[:runtime.Stack(b, true)]
	gs := strings.Split(string(b), "\n\n")
	my := bubbleRE.FindString(gs[0])
	n := 0
	for _, g := range gs[1:] {
		if m := bubbleRE.FindString(g); m == my && m != "" && strings.Contains(g, frame) {
			n++
		}
	}
	return n
}

type wheelProfile struct {
	after, sched, stop, cancel int
	runs                       bool // the loop always runs from the start and is not cancelled
}

func wheelDriver(t *testing.T, salt int64, pr wheelProfile) {
	o := core.Open()
	r := core.Rng(salt)
	for k := 0; k < core.N(200); k++ {
		cfg := core.M{}
		controlled(t, o, r.Int63(), cfg, true, func(x *run) {
			time.Sleep(time.Duration(x.r.Int63n(int64(3 * time.Second))))
			tick := int64([]int{1, 1, 1, 2, 3, 5, 10, 100, 1000, 60000}[x.r.Intn(10)])
			size := int64([]int{2, 2, 2, 3, 3, 3, 4, 4, 5, 8, 20, 200}[x.r.Intn(12)])
			unit := time.Duration(tick) * time.Millisecond
			cfg["tick"] = pair(unit)
			since(x)
			w := &wheel{x: x, ctx: map[int]context.Context{}, cancel: map[int]context.CancelFunc{}, t0: time.Now(),
				timers: map[int]*timingwheel.Timer{}, scheds: map[int]*sched{}, acts: map[int]*act{}}
			for i := 1; i <= 2; i++ {
				w.ctx[i], w.cancel[i] = context.WithCancel(context.Background())
			}
			x.cleanup = func() {
				for _, c := range w.cancel {
					c()
				}
			}
			w.tw = timingwheel.New(tick, size)
			if x.r.Intn(2) == 0 {
				x.lag(2 * unit)
			}
			x.s.IdleMax = 400
			span := unit * time.Duration(size)
			x.horizon = 5 * span * time.Duration(size*size)
			rare := []int{0, 0, 0, 3}[x.r.Intn(4)]
			if rare > 0 {
				x.horizon += 250 * 24 * time.Hour
				x.s.IdleMax, x.s.SpinMax = 2000, 40000 // with many levels, many moves before a task runs
				x.steps = 200000
			}
			delay := func() time.Duration {
				switch core.Pick(x.r, []int{2, 4, 4, 3, 2, 2, 1, rare, rare / 2}) {
				case 0:
					return 0
				case 1:
					return time.Duration(x.r.Intn(int(2*size))) * unit
				case 2:
					return time.Duration(x.r.Int63n(int64(2 * span)))
				case 3:
					return time.Duration(x.r.Int63n(int64(span * time.Duration(size) * 2)))
				case 4:
					return time.Duration(x.r.Int63n(int64(span*time.Duration(size))))*time.Duration(size) + unit
				case 5:
					return span*time.Duration(1+x.r.Intn(3)) + []time.Duration{-1, 0, 1, time.Millisecond, -time.Millisecond}[x.r.Intn(5)]
				case 7: // days
					return time.Duration(x.r.Int63n(int64(100 * 24 * time.Hour)))
				case 8:
					return time.Duration(never) * time.Second
				}
				return -time.Duration(x.r.Int63n(int64(unit)))
			}
			gap := func() time.Duration {
				switch x.r.Intn(4) {
				case 0:
					return time.Duration(x.r.Intn(4)) * unit
				case 1:
					return time.Duration(x.r.Int63n(int64(2 * span)))
				}
				return 0
			}
			// the loop
			loops := []core.M{{"op": "Run", "x": 1}}
			start := time.Duration(0)
			if !pr.runs {
				if x.r.Intn(3) == 0 {
					loops = append(loops, core.M{"op": "Run", "x": 2})
				}
				if x.r.Intn(4) == 0 {
					start = gap()
				}
			}
			go func() {
				time.Sleep(start)
				for _, c := range loops {
					x.h.call(5, c, func() core.A { return w.do(c) })
				}
			}()
			id, inner := 0, 5
			acting := x.r.Intn(2) == 0
			behave := func(id int, next *int) {
				if !acting || x.r.Intn(3) == 0 {
					return
				}
				b := &act{}
				if x.r.Intn(2) == 0 {
					if b.sleep = delay(); b.sleep > x.horizon/2 {
						b.sleep = 0
					}
				}
				if inner < 8 && x.r.Intn(3) == 0 {
					inner++
					b.th = inner
					switch core.Pick(x.r, []int{pr.after, 0, pr.stop, pr.cancel}) {
					case 0:
						*next++
						b.c = core.M{"op": "After", "id": *next, "d": fpair(delay())}
					case 2:
						b.c = core.M{"op": "Stop", "id": id}
					case 3:
						b.c = core.M{"op": "Cancel", "x": 1 + x.r.Intn(2)}
					}
				}
				w.acts[id] = b
			}
			for th := 1; th <= 1+x.r.Intn(4); th++ {
				th := th
				var l []core.M
				var gaps []time.Duration
				var mine []int
				for n := 1 + x.r.Intn(core.Len(6)); n > 0 && id < 15; n-- {
					wt := []int{pr.after, pr.sched, pr.stop, pr.cancel}
					if len(mine) == 0 {
						wt[2] = 0
					}
					var c core.M
					switch core.Pick(x.r, wt) {
					case 0:
						id++
						mine = append(mine, id)
						c = core.M{"op": "After", "id": id, "d": fpair(delay())}
						behave(id, &id)
					case 1:
						id++
						s := &sched{w: w, id: id, left: x.r.Intn(5), anchored: x.r.Intn(2) == 0}
						s.every = []time.Duration{unit, 2 * unit, span, unit / 2, time.Duration(1 + x.r.Int63n(int64(2*span)))}[x.r.Intn(5)]
						if x.r.Intn(2) == 0 {
							s.every += time.Duration(x.r.Int63n(int64(time.Millisecond)))
						}
						s.anchor = time.Duration(x.r.Int63n(int64(s.every) + 1))
						if x.r.Intn(3) == 0 {
							s.past = []time.Duration{s.every, s.every + 1, s.every - 1, s.every + unit, time.Duration(1 + x.r.Int63n(int64(4*span))), 2*s.every + time.Minute}[x.r.Intn(6)]
						}
						w.scheds[id] = s
						if s.left > 0 {
							mine = append(mine, id)
						}
						c = core.M{"op": "Schedule", "id": id}
						behave(id, &id)
					case 2:
						c = core.M{"op": "Stop", "id": mine[x.r.Intn(len(mine))]}
					case 3:
						c = core.M{"op": "Cancel", "x": 1 + x.r.Intn(2)}
					}
					l, gaps = append(l, c), append(gaps, gap())
				}
				if len(mine) > 0 && pr.stop > 0 && x.r.Intn(2) == 0 { // somebody else stops it
					c := core.M{"op": "Stop", "id": mine[x.r.Intn(len(mine))]}
					g := gap()
					l[len(l)-1]["then"] = func() {
						go func() {
							time.Sleep(g)
							x.h.call(th, c, func() core.A { return w.do(c) })
						}()
					}
				}
				go func() {
					for i, c := range l {
						time.Sleep(gaps[i])
						then, _ := c["then"].(func())
						delete(c, "then")
						x.h.call(th, c, func() core.A { return w.do(c) })
						if then != nil {
							then()
						}
					}
				}()
			}
			x.final = func() {
				x.h.add(core.M{"e": "left", "n": left("common/timer/timingwheel.")})
			}
		})
	}
	fmt.Println("cut", cut)
	o.Close()
}

func TestT03(t *testing.T) {
	wheelDriver(t, 2030, wheelProfile{after: 8, sched: 1, stop: 1, runs: true})
}
func TestT04(t *testing.T) {
	wheelDriver(t, 2040, wheelProfile{after: 5, sched: 2, stop: 6, runs: true})
}
func TestT05(t *testing.T) {
	wheelDriver(t, 2050, wheelProfile{after: 6, sched: 2, stop: 2, cancel: 2})
}
func TestT06(t *testing.T) {
	wheelDriver(t, 2060, wheelProfile{after: 1, sched: 6, stop: 2, runs: true})
}

var _ = rand.Int
