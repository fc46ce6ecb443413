// Package vsched: a controlled scheduler inside a bubble of virtual time.  Instrumented code calls
// Point before every statement; a goroutine waits there until the scheduler picks it.  The scheduler
// picks when every goroutine waits (at a point, or blocked for good reasons of its own).
package vsched

import (
	"math/rand"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"
)

type parked struct {
	g  int64
	ch chan struct{}
}

// Sched is the scheduler of one run.
type Sched struct {
	mu     sync.Mutex
	list   []*parked
	arrive chan struct{}
	dead   atomic.Bool
	kill   chan struct{}
	rng    *rand.Rand
	prio   map[int64]float64
	main   int64

	// Quiet is called when nothing can run at this instant; it answers whether time may pass on.
	Quiet func() bool
	// OnTime is called after time has passed.
	OnTime func()
	// Progress counts what the outside sees (calls, returns, runs); a spin makes none.
	Progress func() int
	// Horizon: how far time may pass without anything happening before the run is over.
	Horizon time.Duration
	// Lag: probability per step that time passes although something could run, and by how much at most.
	Lag    float64
	LagMax time.Duration
	// LagLeft: how many more times; Lagged: how much in all
	LagLeft int
	Lagged  time.Duration
	// Policy: "uniform", "pct", "sticky", "stall"
	Policy string
	// Steps taken; Spun: something ran for ever without an effect.
	Steps int
	Spun  bool
	// Idle counts the times something ran after a wait although nothing happened.
	Idle int
	// IdleMax: more is spinning (0: any number is fine).
	IdleMax int
	// SpinMax: so many steps without an effect, everybody having fair turns, are spinning.
	SpinMax int
}

var cur atomic.Pointer[Sched]

// New scheduler, current until Stop.  Must be called inside the bubble.
func New(seed int64) *Sched {
	s := &Sched{arrive: make(chan struct{}, 1), kill: make(chan struct{}), rng: rand.New(rand.NewSource(seed)),
		prio: map[int64]float64{}, main: gid(), Horizon: time.Hour, Policy: "uniform", SpinMax: 3000,
		Quiet: func() bool { return true }, OnTime: func() {}, Progress: func() int { return 0 }}
	cur.Store(s)
	return s
}

func gid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	s := b[10:n]
	for i, c := range s {
		if c == ' ' {
			v, _ := strconv.ParseInt(string(s[:i]), 10, 64)
			return v
		}
	}
	return 0
}

// Point where a switch may happen.
func Point() {
	s := cur.Load()
	if s == nil {
		return
	}
	if s.dead.Load() {
		runtime.Goexit()
	}
	g := gid()
	if g == s.main { // the goroutine that schedules
		return
	}
	p := &parked{g, make(chan struct{})}
	s.mu.Lock()
	s.list = append(s.list, p)
	s.mu.Unlock()
	select {
	case s.arrive <- struct{}{}:
	default:
	}
	<-p.ch
	if s.dead.Load() {
		runtime.Goexit()
	}
}

// Kill is closed when the run is over (nil when there is no scheduler).
func Kill() (<-chan struct{}, bool) {
	s := cur.Load()
	if s == nil {
		return nil, false
	}
	return s.kill, s.dead.Load()
}

func (s *Sched) take() []*parked {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*parked{}, s.list...)
}

func (s *Sched) release(p *parked) {
	s.mu.Lock()
	for i, q := range s.list {
		if q == p {
			s.list = append(s.list[:i], s.list[i+1:]...)
			break
		}
	}
	s.mu.Unlock()
	close(p.ch)
}

// Parked says whether something waits at a point.
func (s *Sched) Parked() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.list) > 0
}

// Run until nothing happens any more, or maxSteps.
func (s *Sched) Run(maxSteps int) {
	var last, stalled int64
	stallLeft := 0
	change := map[int]bool{}
	for i := 0; i < 3; i++ {
		change[s.rng.Intn(400)] = true
	}
	sinceSteps, sinceProg, fair := 0, -1, 0
	waited := false
	for s.Steps < maxSteps {
		synctest.Wait()
		l := s.take()
		if len(l) == 0 {
			sinceSteps = 0
			if !s.Quiet() {
				return
			}
			synctest.Wait()
			if s.Parked() {
				continue
			}
			select { // drop a stale signal
			case <-s.arrive:
			default:
			}
			t := time.NewTimer(s.Horizon)
			select {
			case <-s.arrive:
				t.Stop()
				s.OnTime()
				waited = true
				continue
			case <-t.C:
				s.OnTime()
				synctest.Wait()
				if s.Parked() {
					continue
				}
				s.Quiet()
				return
			}
		}
		if p := s.Progress(); p != sinceProg {
			sinceProg, sinceSteps, fair = p, 0, 0
			waited = false
		}
		if waited {
			waited = false
			if s.Idle++; s.IdleMax > 0 && s.Idle > s.IdleMax {
				s.Spun = true
				return
			}
		}
		s.Steps++
		sinceSteps++
		if sinceSteps > 3000 {
			// running without an effect: everybody has had or gets a fair turn now
			if fair++; fair > s.SpinMax {
				s.Spun = true
				return
			}
			s.release(l[0])
			continue
		}
		if s.LagLeft > 0 && s.rng.Float64() < s.Lag {
			s.LagLeft--
			d := 1 + time.Duration(s.rng.Int63n(int64(s.LagMax)))
			s.Lagged += d
			time.Sleep(d)
			s.OnTime()
			sinceSteps = 0
			continue
		}
		var p *parked
		switch s.Policy {
		case "pct":
			for _, q := range l {
				if _, ok := s.prio[q.g]; !ok {
					s.prio[q.g] = 1 + s.rng.Float64()
				}
				if p == nil || s.prio[q.g] > s.prio[p.g] {
					p = q
				}
			}
			if change[s.Steps] || s.rng.Intn(150) == 0 {
				s.prio[p.g] = s.rng.Float64()
			}
		case "sticky":
			p = l[s.rng.Intn(len(l))]
			if s.rng.Intn(12) > 0 {
				for _, q := range l {
					if q.g == last {
						p = q
					}
				}
			}
		case "stall": // one goroutine is left waiting at one point for long
			if stallLeft == 0 && s.rng.Intn(40) == 0 {
				stalled, stallLeft = l[s.rng.Intn(len(l))].g, 20+s.rng.Intn(300)
			}
			p = l[s.rng.Intn(len(l))]
			for try := 0; stallLeft > 0 && p.g == stalled && len(l) > 1 && try < 20; try++ {
				p = l[s.rng.Intn(len(l))]
			}
			if stallLeft > 0 {
				stallLeft--
			}
		default:
			p = l[s.rng.Intn(len(l))]
		}
		last = p.g
		s.release(p)
	}
}

// Stop ends every goroutine that waits at a point; what is still blocked elsewhere stays.
func (s *Sched) Stop() {
	s.dead.Store(true)
	close(s.kill)
	for i := 0; i < 1000; i++ {
		synctest.Wait()
		l := s.take()
		if len(l) == 0 {
			break
		}
		for _, p := range l {
			s.release(p)
		}
	}
	cur.Store(nil)
}
