package conc

import (
	"errors"
	"fmt"
	"testing"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/limiter/fixed_window"
	"github.com/ahKevinXy/go-web-tools/common/limiter/leaky_bucket"
	"github.com/ahKevinXy/go-web-tools/common/limiter/sliding_log"
	"github.com/ahKevinXy/go-web-tools/common/limiter/sliding_window"
	"github.com/ahKevinXy/go-web-tools/common/limiter/token_bucket"
	"github.com/ahKevinXy/go-web-tools/zzverif/core"
)

func boolTry(f func() bool) func() core.A { return func() core.A { return core.A{"b", f()} } }

// attempts: goroutines attempt, with waits between attempts
func attempts(t *testing.T, salt int64, mk func(x *run, cfg core.M) (op string, try func() core.A, around time.Duration)) {
	o := core.Open()
	r := core.Rng(salt)
	for k := 0; k < core.N(100); k++ {
		cfg := core.M{}
		controlled(t, o, r.Int63(), cfg, true, func(x *run) {
			time.Sleep(time.Duration(x.r.Int63n(int64(3 * time.Second))))
			op, try, around := mk(x, cfg)
			if x.r.Intn(3) > 0 {
				x.lag(around)
			}
			for th := 1 + x.r.Intn(3); th <= 4; th++ {
				th := th
				n := 1 + x.r.Intn(core.Len(4))
				var gaps []time.Duration
				for i := 0; i < n; i++ {
					g := time.Duration(0)
					switch x.r.Intn(6) {
					case 0:
						g = around
					case 1:
						g = around + 1
					case 2:
						g = around - 1
					case 3:
						g = time.Duration(x.r.Int63n(int64(3*around) + 1))
					}
					gaps = append(gaps, g)
				}
				go func() {
					for _, g := range gaps {
						time.Sleep(g)
						x.h.call(th, core.M{"op": op, "o": 1}, try)
					}
				}()
			}
		})
	}
	fmt.Println("cut", cut)
	o.Close()
}

func since(x *run) {
	t0 := time.Now()
	x.h.clock = func() interface{} { return pair(time.Since(t0)) }
}

func TestL06Fixed(t *testing.T) {
	attempts(t, 1061, func(x *run, cfg core.M) (string, func() core.A, time.Duration) {
		w := time.Duration(1 + x.r.Int63n(int64(2*time.Second)))
		cfg["limit"], cfg["window"] = x.r.Intn(4), pair(w)
		since(x)
		l := fixed_window.NewFixedWindowLimiter(core.I(cfg, "limit"), w)
		return "Try", boolTry(l.TryAcquire), w
	})
}

func TestL06Leaky(t *testing.T) {
	attempts(t, 1062, func(x *run, cfg core.M) (string, func() core.A, time.Duration) {
		cfg["peak"], cfg["rate"] = x.r.Intn(4), x.r.Intn(3)
		since(x)
		l := leaky_bucket.NewLeakyBucketLimiter(core.I(cfg, "peak"), core.I(cfg, "rate"))
		return "Try", boolTry(l.TryAcquire), time.Second
	})
}

func TestL06Token(t *testing.T) {
	attempts(t, 1063, func(x *run, cfg core.M) (string, func() core.A, time.Duration) {
		cfg["cap"], cfg["rate"] = x.r.Intn(4), x.r.Intn(4)
		since(x)
		l := token_bucket.NewTokenBucketLimiter(core.I(cfg, "cap"), core.I(cfg, "rate"))
		return "Try", boolTry(l.TryAcquire), time.Second
	})
}

// small windows are counted from the one the limiter was made in
func smallWindows(x *run, small time.Duration) {
	bucket := func() int64 { return time.Now().UnixNano() / int64(small) }
	b0 := bucket()
	x.h.clock = func() interface{} { return bucket() - b0 }
}

func strategies(x *run, small time.Duration, limw ...[2]int) {
	var ss []core.M
	for _, lw := range limw {
		ss = append(ss, core.M{"limit": lw[0], "w": lw[1], "whole": true})
	}
	x.h.ev = append(x.h.ev, core.M{"e": "call", "th": 0, "c": core.M{"op": "New", "o": 1, "ss": ss}, "r": core.A{"ok"}},
		core.M{"e": "ret", "th": 0})
}

func TestL06Window(t *testing.T) {
	attempts(t, 1064, func(x *run, cfg core.M) (string, func() core.A, time.Duration) {
		small := time.Duration(1 + x.r.Int63n(int64(2*time.Second)))
		lim, w := x.r.Intn(4), 1+x.r.Intn(3)
		smallWindows(x, small)
		strategies(x, small, [2]int{lim, w})
		l, err := sliding_window.NewSlidingWindowLimiter(lim, small*time.Duration(w), small)
		if err != nil {
			panic(core.Bug(err.Error()))
		}
		return "TryB", boolTry(l.TryAcquire), small
	})
}

func TestL06Log(t *testing.T) {
	attempts(t, 1065, func(x *run, cfg core.M) (string, func() core.A, time.Duration) {
		small := time.Duration(1 + x.r.Int63n(int64(2*time.Second)))
		l1, w1 := x.r.Intn(3), 1+x.r.Intn(3)
		l2, w2 := l1+1+x.r.Intn(2), w1+1+x.r.Intn(3)
		smallWindows(x, small)
		strategies(x, small, [2]int{l1, w1}, [2]int{l2, w2})
		l, err := sliding_log.NewSlidingLogLimiter(small, sliding_log.NewSlidingLogLimiterStrategy(l1, small*time.Duration(w1)),
			sliding_log.NewSlidingLogLimiterStrategy(l2, small*time.Duration(w2)))
		if err != nil {
			panic(core.Bug(err.Error()))
		}
		return "Try", func() core.A {
			err := l.TryAcquire()
			var v *sliding_log.ViolationStrategyError
			switch {
			case err == nil:
				return core.A{"ok"}
			case errors.As(err, &v):
				if v.Window%small != 0 {
					return core.A{"viol", v.Limit, -1}
				}
				return core.A{"viol", v.Limit, int64(v.Window / small)}
			}
			return core.A{"unnamed error"}
		}, small
	})
}
