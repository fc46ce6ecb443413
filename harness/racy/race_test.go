// Package racy: free-running drivers for the race detector.
package racy

import (
	"context"
	"fmt"
	"runtime"
	"sync"
	"testing"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/fix"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/round"
	"github.com/ahKevinXy/go-web-tools/common/limiter/fixed_window"
	"github.com/ahKevinXy/go-web-tools/common/limiter/leaky_bucket"
	"github.com/ahKevinXy/go-web-tools/common/limiter/sliding_log"
	"github.com/ahKevinXy/go-web-tools/common/limiter/sliding_window"
	"github.com/ahKevinXy/go-web-tools/common/limiter/token_bucket"
	"github.com/ahKevinXy/go-web-tools/common/timer/delayqueue"
	"github.com/ahKevinXy/go-web-tools/common/timer/timingwheel"
	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/core"
)

// rounds runs f (rounds of goroutines) until the budget is used up
func rounds(f func(k int)) {
	end := time.Now().Add(core.Budget(2))
	k := 0
	for ; time.Now().Before(end); k++ {
		f(k)
	}
	fmt.Printf("RACY rounds=%d\n", k)
}

// together runs the functions at the same time
func together(fs ...func()) {
	var wg sync.WaitGroup
	for _, f := range fs {
		f := f
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
	}
	wg.Wait()
}

type spsc interface {
	Push(int)
	Pop() int
	Peek() int
	MPush(...int)
	MPop(uint64) []int
	MPopCopy([]int)
	Len() uint64
	Avail() uint64
	Empty() bool
	Full() bool
}

func TestC10(t *testing.T) {
	rounds(func(k int) {
		var q spsc = fix.New[int](uint64(1 + k%5))
		if k%2 == 1 {
			q = round.New[int](uint64(1 + k%5))
		}
		const n = 120
		together(func() {
			for i := 0; i < n; i++ {
				if i%3 == 0 {
					q.MPush(i, i, i)
				} else if !q.Full() {
					q.Push(i)
				}
				if q.Avail() == 0 {
					runtime.Gosched()
				}
			}
		}, func() {
			d := make([]int, 2)
			for i := 0; i < n; i++ {
				switch i % 3 {
				case 0:
					q.MPop(2)
				case 1:
					q.MPopCopy(d)
				default:
					if !q.Empty() {
						q.Peek()
						q.Pop()
					}
				}
				if q.Len() == 0 {
					runtime.Gosched()
				}
			}
		})
	})
}

func TestL06(t *testing.T) {
	rounds(func(k int) {
		var try func()
		switch k % 5 {
		case 0:
			l := fixed_window.NewFixedWindowLimiter(3, time.Microsecond)
			try = func() { l.TryAcquire() }
		case 1:
			l := leaky_bucket.NewLeakyBucketLimiter(3, 1)
			try = func() { l.TryAcquire() }
		case 2:
			l := token_bucket.NewTokenBucketLimiter(3, 1)
			try = func() { l.TryAcquire() }
		case 3:
			l, _ := sliding_window.NewSlidingWindowLimiter(3, 10*time.Microsecond, time.Microsecond)
			try = func() { l.TryAcquire() }
		case 4:
			l, _ := sliding_log.NewSlidingLogLimiter(time.Microsecond, sliding_log.NewSlidingLogLimiterStrategy(3, 10*time.Microsecond))
			try = func() { _ = l.TryAcquire() }
		}
		f := func() {
			for i := 0; i < 30; i++ {
				try()
			}
		}
		together(f, f, f)
	})
}

func TestM01(t *testing.T) {
	rounds(func(k int) {
		m := &utils.Map{}
		f := func() {
			for i := 0; i < 30; i++ {
				switch (i + k) % 8 {
				case 0:
					m.Get(i % 3)
				case 1:
					m.Set(i%3, i)
				case 2:
					m.TestAndSet(i%3, i)
				case 3:
					m.Del(i % 3)
				case 4:
					m.Len()
				case 5:
					m.RLockRange(func(_, _ interface{}) { m.UnsafeGet(1); m.UnsafeLen() })
				case 6:
					m.LockRange(func(k, _ interface{}) { m.UnsafeSet(k, 0) })
				case 7:
					m.Lock()
					m.UnsafeSet(7, i)
					m.UnsafeDel(7)
					m.Unlock()
				}
			}
		}
		together(f, f, f)
	})
}

func TestT01(t *testing.T) {
	rounds(func(k int) {
		q := delayqueue.New[int]()
		ctx, cancel := context.WithTimeout(context.Background(), 3*time.Millisecond)
		defer cancel()
		ch := q.Channel(ctx, k%3)
		together(func() {
			for i := 0; i < 20; i++ {
				q.Push(i, time.Duration(i%4)*100*time.Microsecond)
			}
		}, func() {
			for i := 0; i < 5; i++ {
				q.Push(i, time.Duration(5-i)*50*time.Microsecond)
				q.Peek()
				q.Empty()
			}
		}, func() {
			for i := 0; i < 5; i++ {
				q.Take(ctx)
				q.Pop()
			}
		}, func() {
			for range ch {
			}
		})
	})
}

type everyMs struct {
	mu sync.Mutex
	n  int
}

func (s *everyMs) Next(t time.Time) time.Time {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.n--; s.n < 0 {
		return time.Time{}
	}
	return t.Add(time.Millisecond)
}

func TestT03(t *testing.T) {
	rounds(func(k int) {
		tw := timingwheel.New(1, int64(2+k%3))
		ctx, cancel := context.WithCancel(context.Background())
		var wg sync.WaitGroup
		wg.Add(1)
		go func() { defer wg.Done(); tw.Run(ctx) }()
		f := func() {
			for i := 0; i < 20; i++ {
				x := tw.AfterFunc(time.Duration(i%9)*time.Millisecond, func() {})
				if i%3 == 0 {
					together(func() { x.Stop() }, func() { x.Stop() })
				}
				if i%5 == 0 {
					time.Sleep(time.Millisecond)
				}
			}
			y := tw.ScheduleFunc(&everyMs{n: 4}, func() {})
			time.Sleep(2 * time.Millisecond)
			y.Stop()
		}
		together(f, f, f, func() { time.Sleep(6 * time.Millisecond); cancel() })
		cancel()
		wg.Wait()
	})
}
