// Package core: reading generated walks, recording histories, watching for calls that never return.
package core

import (
	"bufio"
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

// M is one call, event or configuration record.
type M = map[string]interface{}

// A is one result or sequence.
type A = []interface{}

// Trace is one recorded history.
type Trace struct {
	Cfg M   `json:"cfg"`
	Ev  []M `json:"ev"`
}

// Add appends an event.
func (t *Trace) Add(e M) { t.Ev = append(t.Ev, e) }

// Env reads an integer from the environment.
func Env(k string, d int) int {
	if s := os.Getenv(k); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			return n
		}
	}
	return d
}

// Seed is VERIF_SEED, N the number of random histories, Len their length.
func Seed() int64 { return int64(Env("VERIF_SEED", 1)) }

// N histories asked for.
func N(d int) int { return Env("VERIF_N", d) }

// Len of each random history.
func Len(d int) int { return Env("VERIF_LEN", d) }

// Budget is the wall-clock budget of this driver.
func Budget(d int) time.Duration { return time.Duration(Env("VERIF_BUDGET", d)) * time.Second }

// Thorough tier?
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Rng seeded by VERIF_SEED and a salt.
func Rng(salt int64) *rand.Rand { return rand.New(rand.NewSource(Seed()*1000003 + salt)) }

// Walks reads the generated walks: one JSON array of calls per line.
func Walks() [][]M {
	p := os.Getenv("VERIF_WALKS")
	if p == "" {
		return nil
	}
	f, err := os.Open(p)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	var out [][]M
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		var w []M
		if err := json.Unmarshal(sc.Bytes(), &w); err != nil {
			panic(err)
		}
		out = append(out, w)
	}
	return out
}

// Bug is a panic of the harness itself: never a result of the code under test.
type Bug string

// I reads an integer argument.
func I(c M, k string) int {
	switch v := c[k].(type) {
	case float64:
		return int(v)
	case int:
		return v
	case int64:
		return int(v)
	}
	panic(Bug(fmt.Sprintf("argument %s of %v", k, c)))
}

// I2 reads an integer argument that may be absent.
func I2(c M, k string, d int) int {
	if c[k] == nil {
		return d
	}
	return I(c, k)
}

// S reads a string argument.
func S(c M, k string) string { return c[k].(string) }

// Is reads an integer sequence argument.
func Is(c M, k string) []int {
	switch v := c[k].(type) {
	case []int:
		return v
	case []interface{}:
		out := make([]int, len(v))
		for i, x := range v {
			switch y := x.(type) {
			case int:
				out[i] = y
			case float64:
				out[i] = int(y)
			default:
				panic(Bug(fmt.Sprintf("argument %s of %v", k, c)))
			}
		}
		return out
	case nil:
		return nil
	}
	panic(Bug(fmt.Sprintf("argument %s of %v", k, c)))
}

// Out writes histories, one per line; identical ones once.
type Out struct {
	mu    sync.Mutex
	f     *os.File
	w     *bufio.Writer
	seen  map[[20]byte]bool
	Total int
	cur   atomic.Value // *running
}

type running struct {
	tr   *Trace
	call M
}

// Open the output file named by VERIF_OUT.
func Open() *Out {
	f, err := os.Create(os.Getenv("VERIF_OUT"))
	if err != nil {
		panic(err)
	}
	o := &Out{f: f, w: bufio.NewWriterSize(f, 1<<20), seen: map[[20]byte]bool{}}
	go o.watch()
	return o
}

// Emit one history.
func (o *Out) Emit(t *Trace) {
	if t.Ev == nil {
		t.Ev = []M{}
	}
	b, err := json.Marshal(t)
	if err != nil {
		panic(err)
	}
	o.mu.Lock()
	defer o.mu.Unlock()
	o.Total++
	s := sha1.Sum(b)
	if o.seen[s] {
		return
	}
	o.seen[s] = true
	o.w.Write(b)
	o.w.WriteByte('\n')
}

// Close flushes and reports how many histories ran and how many were distinct.
func (o *Out) Close() {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.w.Flush()
	o.f.Close()
	fmt.Printf("DRIVER total=%d distinct=%d\n", o.Total, len(o.seen))
}

// Try runs one call; a panic becomes the result ["panic"].
func Try(f func() A) (r A) {
	defer func() {
		if e := recover(); e != nil {
			if _, mine := e.(Bug); mine {
				panic(e)
			}
			r = A{"panic"}
		}
	}()
	return f()
}

// watch makes a call that runs longer than a minute of wall clock end the driver with the history
// recorded so far plus the result ["hang"], which no specification allows.  It runs outside any
// bubble of virtual time and counts its own seconds.
func (o *Out) watch() {
	var last *running
	n := 0
	for {
		time.Sleep(time.Second)
		r, _ := o.cur.Load().(*running)
		if r == nil || r.call == nil || r != last {
			last, n = r, 0
			continue
		}
		if n++; n > 60 {
			r.tr.Add(M{"c": r.call, "r": A{"hang"}, "o": A{}})
			o.Emit(r.tr)
			o.Close()
			os.Exit(0)
		}
	}
}

// Begin and End bracket calls for the watchdog.
func (o *Out) Begin(t *Trace, c M) { o.cur.Store(&running{t, c}) }

// End of the call.
func (o *Out) End() { o.cur.Store(idle) }

var idle = &running{}

// Opts for the sequential driver loop.
type Opts struct {
	// New object under test for a configuration; Do runs one call and returns its result and an
	// observation of the whole object (nil: none).
	New func(cfg M) Obj
	// Cfgs: configurations the walks are run with.
	Cfgs []M
	// Rand builds the configuration and a generator of calls for one random history.
	Rand func(r *rand.Rand) (M, func(r *rand.Rand, o Obj) M)
	Salt int64
	N    int
	Len  int
	// Big more random histories, of BigLen calls each, made while core.Big is set.
	Big    int
	BigLen int
	// Extra runs further histories: one(cfg, calls).
	Extra func(one func(cfg M, calls []M))
}

// Big is set while the histories with large sizes are made.
var Big bool

// Wave biases weights so that sizes rise and fall: step counts calls, grow and shrink are indices.
func Wave(w []int, step, period int, grow, shrink []int) []int {
	v := append([]int{}, w...)
	up, down := grow, shrink
	if step/period%2 == 1 {
		up, down = shrink, grow
	}
	for _, i := range up {
		v[i] = 1 + v[i]*4
	}
	for _, i := range down {
		v[i] = v[i] / 3
	}
	return v
}

// Obj is one object (or family of objects) under test.
type Obj interface {
	Do(c M) A
	Obs() interface{}
}

// Held, if set, counts what the process holds: histories then tell only what each call went on holding.
var Held func() int

// Run the walks on every configuration, then the random histories, and record everything.
func Run(o *Out, op Opts) {
	one := func(cfg M, next func(i int, ob Obj) M) {
		t := &Trace{Cfg: cfg}
		ob := op.New(cfg)
		for i := 0; ; i++ {
			c := choose(next, i, ob)
			if c == nil {
				break
			}
			o.Begin(t, c)
			was := 0
			if Held != nil {
				was = Held()
			}
			r := Try(func() A { return ob.Do(c) })
			e := M{"c": c, "r": r}
			if Held != nil {
				e["c"], e["r"] = M{"op": c["op"]}, A{"held", Held() - was}
			} else if s, bad := obs(ob); bad {
				e["r"], e["o"] = A{"obspanic"}, A{}
			} else if s != nil {
				e["o"] = s
			}
			o.End()
			if x, ok := ob.(interface{ More(M) }); ok {
				x.More(e)
			}
			t.Add(e)
		}
		if x, ok := ob.(interface{ Close() }); ok {
			x.Close()
		}
		o.Emit(t)
	}
	for _, w := range Walks() {
		w := w
		for _, cfg := range op.Cfgs {
			one(cfg, func(i int, ob Obj) M {
				if i < len(w) {
					return w[i]
				}
				return nil
			})
		}
	}
	if op.Extra != nil {
		op.Extra(func(cfg M, calls []M) {
			one(cfg, func(i int, ob Obj) M {
				if i < len(calls) {
					return calls[i]
				}
				return nil
			})
		})
	}
	if op.Rand != nil {
		r := Rng(op.Salt)
		n, ln := N(op.N), Len(op.Len)
		for k := 0; k < n; k++ {
			cfg, g := op.Rand(r)
			m := 1 + r.Intn(ln)
			one(cfg, func(i int, ob Obj) M {
				if i < m {
					return g(r, ob)
				}
				return nil
			})
		}
		Big = true
		for k := 0; k < op.Big && n > 0; k++ {
			cfg, g := op.Rand(r)
			one(cfg, func(i int, ob Obj) M {
				if i < op.BigLen {
					return g(r, ob)
				}
				return nil
			})
		}
		Big = false
	}
}

// choose the next call.  A generator that fails leaves the history as it is: what was recorded may show why.
func choose(next func(int, Obj) M, i int, ob Obj) (c M) {
	defer func() {
		if e := recover(); e != nil {
			fmt.Printf("GENERATOR FAILED: %v\n%s\n", e, debug.Stack())
			c = nil
		}
	}()
	return next(i, ob)
}

func obs(ob Obj) (s interface{}, bad bool) {
	defer func() {
		if e := recover(); e != nil {
			s, bad = nil, true
		}
	}()
	return ob.Obs(), false
}

// Pick an index with the given weights.
func Pick(r *rand.Rand, w []int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.Intn(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}
