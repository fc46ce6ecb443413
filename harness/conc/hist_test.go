// Package conc: drivers that run the code under the controlled scheduler and record what each
// goroutine called, what it got back and when.
package conc

import (
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/ahKevinXy/go-web-tools/zzverif/core"
	"github.com/ahKevinXy/go-web-tools/zzverif/vsched"
)

// hist records the events of one run.
type hist struct {
	mu   sync.Mutex
	ev   []core.M
	open map[int]core.M
	n    int
	t0   time.Time
	// clock is what the histories of this driver say about time; nil: nothing
	clock func() interface{}
	last  string
}

// pair: an instant since the start as seconds and nanoseconds
func pair(d time.Duration) core.A { return core.A{int64(d / time.Second), int64(d % time.Second)} }

// at adds the passing of time (caller holds mu)
func (h *hist) at() {
	if h.clock != nil {
		t := h.clock()
		if s := fmt.Sprint(t); s != h.last {
			if h.last != "" {
				h.ev = append(h.ev, core.M{"e": "tick", "t": t})
			}
			h.last = s
		}
	}
}

func (h *hist) tick() {
	h.mu.Lock()
	h.at()
	h.mu.Unlock()
}

func (h *hist) add(e core.M) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.at()
	h.ev = append(h.ev, e)
	h.n++
}

func (h *hist) progress() int {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.n
}

// call runs one operation as goroutine th; the result is attached to the call event once known
func (h *hist) call(th int, c core.M, f func() core.A) core.A {
	e := core.M{"e": "call", "th": th, "c": c}
	h.add(e)
	vsched.Point()
	r := core.Try(f)
	h.mu.Lock()
	h.at()
	e["r"] = r
	h.ev = append(h.ev, core.M{"e": "ret", "th": th})
	h.n++
	h.mu.Unlock()
	return r
}

// run is one controlled run
type run struct {
	s *vsched.Sched
	h *hist
	r *rand.Rand
	// bubble: more time than this without anything means the end
	horizon time.Duration
	// cleanup is called before the remaining goroutines are ended
	cleanup func()
	// final may add to the history at the end
	final func()
	steps int
}

// lag lets time pass now and then, up to max at a time, although something could run
func (x *run) lag(max time.Duration) {
	x.s.Lag, x.s.LagMax, x.s.LagLeft = 0.1*x.r.Float64(), max, 1+x.r.Intn(5)
}

var policies = []string{"uniform", "pct", "sticky", "stall"}

// controlled runs body (which starts goroutines) under the scheduler; everything that happened is emitted
func controlled(t *testing.T, o *core.Out, seed int64, cfg core.M, quietEvents bool, body func(x *run)) {
	tr := &core.Trace{Cfg: cfg}
	x := &run{r: rand.New(rand.NewSource(seed)), horizon: time.Hour, steps: 60000}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if s := fmt.Sprint(e); len(s) > 8 && s[:8] == "deadlock" {
					return // goroutines of the code under test that never end
				}
				panic(e)
			}
		}()
		synctest.Test(t, func(*testing.T) {
			x.h = &hist{open: map[int]core.M{}, t0: time.Now()}
			x.s = vsched.New(seed)
			x.s.Policy = policies[x.r.Intn(len(policies))]
			x.s.Progress = x.h.progress
			lastQ := ""
			x.s.Quiet = func() bool {
				x.h.mu.Lock()
				defer x.h.mu.Unlock()
				x.h.at()
				if q := fmt.Sprint(x.h.n, x.h.last); quietEvents && q != lastQ {
					x.h.ev = append(x.h.ev, core.M{"e": "quiet", "slack": pair(x.s.Lagged)})
					lastQ = q
				}
				return true
			}
			x.s.OnTime = x.h.tick
			body(x)
			x.h.tick()
			x.s.Horizon = x.horizon
			x.s.Run(x.steps)
			if x.s.Spun {
				x.h.add(core.M{"e": "spin"})
			}
			if x.final != nil {
				x.final()
			}
			x.h.mu.Lock()
			for _, e := range x.h.ev { // as it is now: what still runs may end later
				c := core.M{}
				for k, v := range e {
					c[k] = v
				}
				tr.Ev = append(tr.Ev, c)
			}
			x.h.mu.Unlock()
			if x.s.Steps >= x.steps {
				tr = nil // cut short: nothing is claimed about it
			}
			if x.cleanup != nil {
				x.cleanup()
			}
			x.s.Stop()
		})
	}()
	if tr != nil {
		o.Emit(tr)
	} else {
		cut++
	}
}

var cut int
