// Package limiters: sequential drivers of the limiters, in virtual time.
package limiters

import (
	"errors"
	"math"
	"math/rand"
	"testing"
	"testing/synctest"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/limiter/fixed_window"
	"github.com/ahKevinXy/go-web-tools/common/limiter/leaky_bucket"
	"github.com/ahKevinXy/go-web-tools/common/limiter/sliding_log"
	"github.com/ahKevinXy/go-web-tools/common/limiter/sliding_window"
	"github.com/ahKevinXy/go-web-tools/common/limiter/token_bucket"
	"github.com/ahKevinXy/go-web-tools/zzverif/core"
)

type trier interface{ TryAcquire() bool }

type boolObj struct {
	l    trier
	t0   time.Time
	unit time.Duration
}

func pair(d time.Duration) core.A { return core.A{int64(d / time.Second), int64(d % time.Second)} }

func dur(c core.M, k string) time.Duration { return time.Duration(core.I(c, k)) }

func (x *boolObj) Do(c core.M) core.A {
	switch core.S(c, "op") {
	case "Try":
		return core.A{"b", x.l.TryAcquire()}
	case "Adv":
		if _, ok := c["ns"]; ok {
			time.Sleep(dur(c, "ns"))
		} else {
			time.Sleep(dur(c, "d") * x.unit)
		}
	default:
		panic(core.Bug("op"))
	}
	return core.A{}
}

func (x *boolObj) Obs() interface{} { return core.M{"t": pair(time.Since(x.t0))} }

func bubble(t *testing.T, f func()) { synctest.Test(t, func(*testing.T) { f() }) }

// gaps between attempts: usually none, else around the given length, else anything
func gap(r *rand.Rand, around time.Duration, rest time.Duration) time.Duration {
	switch r.Intn(9) {
	case 0:
		return 1
	case 1:
		return around - 1
	case 2:
		return around
	case 3:
		return around + 1
	case 4:
		return time.Duration(r.Int63n(int64(around)))
	case 5:
		return rest
	case 6:
		return time.Duration(r.Int63n(int64(3*around) + 1))
	}
	return around / time.Duration(1+r.Intn(4))
}

// bursts: runs of attempts with gaps between them
func bursts(r *rand.Rand, around time.Duration, burst int) func(*rand.Rand, core.Obj) core.M {
	left := 0
	return func(r *rand.Rand, _ core.Obj) core.M {
		if left > 0 {
			left--
			return core.M{"op": "Try"}
		}
		left = r.Intn(burst + 1)
		rest := 20 * around
		if around > 24*time.Hour {
			rest = 2 * around
		}
		return core.M{"op": "Adv", "ns": int64(gap(r, around, rest))}
	}
}

func jitter(r *rand.Rand) { time.Sleep(time.Duration(r.Int63n(int64(3 * time.Second)))) }

func TestL01(t *testing.T) {
	o := core.Open()
	bubble(t, func() {
		r0 := core.Rng(101)
		var cfgs []core.M
		for _, unit := range []time.Duration{1, 250 * time.Millisecond, time.Second} {
			for _, delta := range []time.Duration{-1, 0, 1} {
				if unit > 1 || delta == 0 {
					cfgs = append(cfgs, core.M{"unit": int(unit), "w": int(4*unit + delta), "limit": 2, "window": pair(4*unit + delta)})
				}
			}
		}
		core.Run(o, core.Opts{
			New: func(cfg core.M) core.Obj {
				jitter(r0)
				x := &boolObj{t0: time.Now(), unit: dur(cfg, "unit")}
				x.l = fixed_window.NewFixedWindowLimiter(core.I2(cfg, "real", core.I(cfg, "limit")), dur(cfg, "w"))
				return x
			},
			Cfgs: cfgs, Salt: 11, N: 300, Len: 120,
			Rand: func(r *rand.Rand) (core.M, func(*rand.Rand, core.Obj) core.M) {
				w := time.Duration(1 + r.Int63n(int64([]time.Duration{10, time.Second, time.Hour, 40 * 24 * time.Hour}[r.Intn(3+room())])))
				lim := r.Intn(7)
				cfg := core.M{"unit": 1, "w": int(w), "limit": lim, "window": pair(w)}
				switch r.Intn(12) {
				case 0:
					lim = 20 + r.Intn(60)
					cfg["limit"] = lim
				case 1: // as good as without a limit
					cfg["limit"], cfg["real"] = huge, math.MaxInt64-r.Intn(2)
				case 2:
					cfg["limit"] = -1 - r.Intn(3)
				}
				return cfg, bursts(r, w, lim+3)
			},
		})
	})
	o.Close()
}

// huge stands for every number as large or larger: more than all attempts of a history
const huge = 1 << 30

// room: 1 while the clock is far from its end
func room() int {
	if time.Now().Year() < 2150 {
		return 1
	}
	return 0
}

func bucketDriver(t *testing.T, salt int64, level string, mk func(a, b int) trier) {
	o := core.Open()
	bubble(t, func() {
		r0 := core.Rng(salt + 100)
		var cfgs []core.M
		for _, unit := range []time.Duration{500 * time.Millisecond, 500*time.Millisecond - 1, 500*time.Millisecond + 1, 1700 * time.Millisecond} {
			cfgs = append(cfgs, core.M{"unit": int(unit), level: 3, "rate": 2}, core.M{"unit": int(unit), level: 2, "rate": 1})
		}
		core.Run(o, core.Opts{
			New: func(cfg core.M) core.Obj {
				jitter(r0)
				x := &boolObj{t0: time.Now(), unit: dur(cfg, "unit")}
				x.l = mk(core.I2(cfg, "reallevel", core.I(cfg, level)), core.I2(cfg, "realrate", core.I(cfg, "rate")))
				return x
			},
			Cfgs: cfgs, Salt: salt, N: 300, Len: 120,
			Rand: func(r *rand.Rand) (core.M, func(*rand.Rand, core.Obj) core.M) {
				lv, rate := r.Intn(12), r.Intn(6)
				cfg := core.M{"unit": 1, level: lv, "rate": rate}
				around := time.Duration(1+r.Intn(3)) * time.Second
				switch r.Intn(10) {
				case 0:
					around = time.Duration(1+r.Intn(1+39*room())) * 24 * time.Hour
				case 1:
					lv = 20 + r.Intn(60)
					cfg[level], cfg["rate"] = lv, []int{1, 7, lv - 1, lv, lv + 1, 1000}[r.Intn(6)]
				case 2: // as good as without a level
					cfg[level], cfg["reallevel"] = huge, math.MaxInt64-r.Intn(2)
				case 3:
					cfg[level] = -1 - r.Intn(3)
				}
				if r.Intn(6) == 0 { // everything at once
					cfg["rate"], cfg["realrate"] = huge, []int{math.MaxInt64, 1 << 62, 1<<62 + 1, math.MaxInt64/2 + 1, math.MaxInt64/3 + 1, 1 << 40}[r.Intn(6)]
				}
				return cfg, bursts(r, around, lv+2)
			},
		})
	})
	o.Close()
}

func TestL02(t *testing.T) {
	bucketDriver(t, 12, "peak", func(a, b int) trier { return leaky_bucket.NewLeakyBucketLimiter(a, b) })
}

func TestL03(t *testing.T) {
	bucketDriver(t, 13, "cap", func(a, b int) trier { return token_bucket.NewTokenBucketLimiter(a, b) })
}

// slideObj: up to two sliding limiters, fed from one pool of strategies.
type slideObj struct {
	small [2]time.Duration
	b0    [2]int64
	win   [2]*sliding_window.SlidingWindowLimiter
	log   [2]*sliding_log.SlidingLogLimiter
	pool  map[string]*sliding_log.SlidingLogLimiterStrategy
	named bool
	unit  time.Duration
	o     int
}

func bucket(small time.Duration) int64 { return time.Now().UnixNano() / int64(small) }

type strat struct {
	limit  int
	window time.Duration
}

func (x *slideObj) strategy(c core.M, shared bool) *sliding_log.SlidingLogLimiterStrategy {
	lim, w := core.I(c, "limit"), dur(c, "ns")
	k := time.Duration(lim).String() + "/" + w.String()
	if shared && x.pool[k] != nil {
		return x.pool[k]
	}
	s := sliding_log.NewSlidingLogLimiterStrategy(lim, w)
	x.pool[k] = s
	return s
}

func maps(c core.M, k string) []core.M {
	switch v := c[k].(type) {
	case []core.M:
		return v
	case []interface{}:
		var out []core.M
		for _, m := range v {
			out = append(out, m.(map[string]interface{}))
		}
		return out
	}
	return nil
}

func (x *slideObj) Do(c core.M) core.A {
	switch core.S(c, "op") {
	case "New":
		o := core.I(c, "o") - 1
		small := dur(c, "small")
		ss := maps(c, "ss")
		var err error
		if x.named {
			var args []*sliding_log.SlidingLogLimiterStrategy
			for _, s := range ss {
				args = append(args, x.strategy(s, c["shared"] == true))
			}
			before := append([]*sliding_log.SlidingLogLimiterStrategy{}, args...)
			var l *sliding_log.SlidingLogLimiter
			l, err = sliding_log.NewSlidingLogLimiter(small, args...)
			for i := range args {
				if args[i] != before[i] {
					return core.A{"the caller's list was reordered"}
				}
			}
			if err == nil {
				x.log[o] = l
			}
		} else {
			var l *sliding_window.SlidingWindowLimiter
			l, err = sliding_window.NewSlidingWindowLimiter(core.I(ss[0], "limit"), dur(ss[0], "ns"), small)
			if err == nil {
				x.win[o] = l
			}
		}
		if err != nil {
			return core.A{"err"}
		}
		x.small[o] = small
		x.b0[o] = bucket(small)
		return core.A{"ok"}
	case "Adv":
		if _, ok := c["ns"]; ok {
			time.Sleep(dur(c, "ns"))
		} else {
			time.Sleep(dur(c, "d") * x.unit)
		}
		return core.A{}
	}
	o := core.I(c, "o") - 1
	x.o = o
	switch core.S(c, "op") {
	case "TryB":
		return core.A{"b", x.win[o].TryAcquire()}
	case "Try":
		err := x.log[o].TryAcquire()
		var v *sliding_log.ViolationStrategyError
		switch {
		case err == nil:
			return core.A{"ok"}
		case errors.As(err, &v):
			if v.Window%x.small[o] != 0 {
				return core.A{"viol", v.Limit, -1}
			}
			return core.A{"viol", v.Limit, int64(v.Window / x.small[o])}
		}
		return core.A{"unnamed error"}
	}
	return core.A{}
}

func (x *slideObj) Obs() interface{} {
	if x.small[x.o] == 0 {
		return core.M{"b": 0}
	}
	return core.M{"b": bucket(x.small[x.o]) - x.b0[x.o]}
}

func ss(small time.Duration, s ...strat) []core.M {
	out := []core.M{}
	for _, y := range s {
		if small <= 0 { // nothing is a whole number of those
			out = append(out, core.M{"limit": y.limit, "ns": int(y.window), "w": 1, "whole": false})
			continue
		}
		out = append(out, core.M{"limit": y.limit, "ns": int(y.window), "w": int(y.window / small), "whole": y.window%small == 0})
	}
	return out
}

func slideDriver(t *testing.T, salt int64, named bool) {
	o := core.Open()
	bubble(t, func() {
		r0 := core.Rng(salt + 100)
		mk := func(cfg core.M) core.Obj {
			u := core.I(cfg, "unit")
			// start at, just before or just after a small-window boundary, or anywhere
			u64 := int64(u)
			time.Sleep(time.Duration(u64 - time.Now().UnixNano()%u64 + []int64{0, u64 - 1, 1 % u64, r0.Int63n(u64)}[r0.Intn(4)]))
			return &slideObj{pool: map[string]*sliding_log.SlidingLogLimiterStrategy{}, named: named, unit: time.Duration(u)}
		}
		run := core.Opts{
			New: mk, Salt: salt, N: 300, Len: 150,
			Extra: func(one func(core.M, []core.M)) {
				for _, w := range core.Walks() {
					for _, small := range []time.Duration{1, 7 * time.Millisecond, time.Second} {
						first := core.M{"op": "New", "o": 1, "small": int(small), "ss": ss(small, strat{2, 3 * small})}
						if named {
							first["ss"] = ss(small, strat{2, 2 * small}, strat{3, 4 * small})
						}
						one(core.M{"unit": int(small)}, append([]core.M{first}, w...))
					}
				}
			},
			Rand: func(r *rand.Rand) (core.M, func(*rand.Rand, core.Obj) core.M) {
				small := time.Duration(1 + r.Int63n(int64([]time.Duration{5, time.Second, 3 * time.Second, time.Hour}[r.Intn(3+room())])))
				small *= 4
				scale := []int{1, 1, 1, 10}[r.Intn(4)]
				var prev []strat
				left, first := 0, 2
				return core.M{"unit": int(small)}, func(r *rand.Rand, ob core.Obj) core.M {
					x := ob.(*slideObj)
					if first > 0 || r.Intn(40) == 0 {
						sm := small
						if r.Intn(3) == 0 {
							sm = small * time.Duration(1+r.Intn(4)) / 2
						}
						var s []strat
						n := 1
						if named {
							n = r.Intn(4)
							if first > 0 {
								n = 1 + r.Intn(4)
							}
						}
						lim, w := r.Intn(4)*scale, time.Duration(0)
						if named && r.Intn(30) == 0 {
							n *= 3
						}
						for i := 0; i < n; i++ {
							if i == 0 || r.Intn(5) > 0 { // or the same window again
								w += sm * time.Duration(1+r.Intn(5))
							}
							lim += r.Intn(4) * scale
							if r.Intn(40) == 0 {
								w += sm * 100000
							}
							if r.Intn(12) > 0 {
								lim++
							}
							y := strat{lim, w}
							if r.Intn(25) == 0 && sm > 1 {
								y.window += 1
							}
							s = append(s, y)
						}
						if named && len(prev) > 0 && r.Intn(2) == 0 {
							// another limiter uses the strategies of an earlier one, often with other small windows
							s = append([]strat{}, prev...)
						}
						prev = append([]strat{}, s...)
						r.Shuffle(len(s), func(i, j int) { s[i], s[j] = s[j], s[i] })
						o := 1 + r.Intn(2)
						if first > 0 {
							o = first
							first--
						} else if r.Intn(6) == 0 {
							sm = []time.Duration{0, -1, -sm, -4}[r.Intn(4)]
						}
						return core.M{"op": "New", "o": o, "small": int(sm), "ss": ss(sm, s...), "shared": r.Intn(2) == 0}
					}
					if left > 0 {
						left--
						o := 1 + r.Intn(2)
						if named {
							if x.log[o-1] == nil {
								return core.M{"op": "None", "o": o}
							}
							return core.M{"op": "Try", "o": o}
						}
						if x.win[o-1] == nil {
							return core.M{"op": "None", "o": o}
						}
						return core.M{"op": "TryB", "o": o}
					}
					left = r.Intn(12 * scale)
					return core.M{"op": "Adv", "ns": int64(gap(r, small, []time.Duration{12, 12, 12, 130000}[r.Intn(3+room()*r.Intn(2))]*small))}
				}
			},
		}
		core.Run(o, run)
	})
	o.Close()
}

func TestL04(t *testing.T) { slideDriver(t, 14, false) }
func TestL05(t *testing.T) { slideDriver(t, 15, true) }
