package texts

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"sync"
	"testing"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/core"
)

const secret = "SECRET-OF-THE-CALLER"

type shellObj struct {
	mu   sync.Mutex
	bufs []*bytes.Buffer
	was  []string
}

func (x *shellObj) Obs() interface{} {
	ok := true
	for i, b := range x.bufs {
		ok = ok && b.String() == x.was[i]
	}
	return core.M{"old": ok}
}

func script(q []interface{}) string {
	var b strings.Builder
	for i, p := range q {
		m := p.(core.M)
		if i > 0 {
			b.WriteString([]string{"\n", "; ", "\n# remark\n", "\n\n"}[core.I2(m, "sep", 0)])
		}
		to := ""
		switch core.S(m, "k") {
		case "err":
			to = " >&2"
			fallthrough
		case "out":
			n := core.I(m, "n")
			if n <= 3 {
				fmt.Fprintf(&b, "printf '%%s\\n' %s%s", strings.TrimSpace(strings.Repeat(core.S(m, "t")+" ", n)), to)
			} else {
				fmt.Fprintf(&b, "yes %s | head -n %d%s", core.S(m, "t"), n, to)
			}
		case "ok":
			b.WriteString([]string{"true", ":", "X=1", "false || true", "(exit 0)"}[core.I2(m, "v", 0)])
		case "fail":
			b.WriteString([]string{"false", "(exit 1)", "! true", "test 1 = 2", "sh -c 'kill -9 $$' 2>/dev/null"}[core.I2(m, "v", 0)])
		case "exit":
			fmt.Fprintf(&b, "exit %d", core.I(m, "n"))
		}
	}
	return b.String()
}

func tokens(s string) core.A {
	out := core.A{}
	if s == "" {
		return out
	}
	last, n := "", 0
	flush := func() {
		if n > 0 {
			out = append(out, core.A{last, n})
		}
	}
	for _, l := range strings.SplitAfter(s, "\n") {
		if l == "" {
			continue
		}
		if strings.HasSuffix(l, "\n") {
			l = strings.TrimSuffix(l, "\n")
		} else {
			l += "<no newline>"
		}
		if l != last || n == 0 {
			flush()
			last, n = l, 0
		}
		n++
	}
	flush()
	return out
}

func (x *shellObj) exec(cmd string) core.A {
	return core.Try(func() core.A {
		out, err := utils.ShellExec(cmd)
		if err != nil {
			if out != nil {
				return core.A{"err with output"}
			}
			return core.A{"err", tokens(err.Error())}
		}
		x.mu.Lock()
		defer x.mu.Unlock()
		x.bufs = append(x.bufs, out)
		x.was = append(x.was, out.String())
		return core.A{"v", tokens(out.String())}
	})
}

func (x *shellObj) Do(c core.M) core.A {
	switch c["op"] {
	case "Run":
		return x.exec(script(c["q"].([]interface{})))
	case "Par":
		qs := c["qs"].([]interface{})
		res := make(core.A, len(qs))
		var wg sync.WaitGroup
		for i := range qs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				res[i] = x.exec(script(qs[i].([]interface{})))
			}(i)
		}
		wg.Wait()
		return res
	case "Cat":
		out, err := utils.ShellExec(core.S(c, "cmd"))
		s := ""
		if err != nil {
			s = err.Error()
		} else {
			s = out.String()
		}
		if strings.Contains(s, secret) {
			return core.A{"shown"}
		}
		return core.A{"hidden"}
	}
	panic(core.Bug("op"))
}

func TestU08(t *testing.T) {
	o := core.Open()
	// the caller's own input
	os.WriteFile("stdin", []byte(strings.Repeat(secret+"\n", 100)), 0o600)
	f, err := os.Open("stdin")
	if err != nil {
		panic(err)
	}
	os.Stdin = f
	parts := []core.M{{"k": "out", "t": "a", "n": 1}, {"k": "out", "t": "b", "n": 2}, {"k": "err", "t": "a", "n": 1},
		{"k": "err", "t": "c", "n": 1}, {"k": "ok"}, {"k": "fail"}, {"k": "exit", "n": 0}, {"k": "exit", "n": 3}}
	core.Run(o, core.Opts{
		New: func(core.M) core.Obj { return &shellObj{} }, Cfgs: []core.M{{}}, Salt: 88, N: 60, Len: 20,
		Extra: func(one func(core.M, []core.M)) {
			// every command of up to two parts (thorough: three)
			max := 2
			if core.Thorough() {
				max = 3
			}
			var calls []core.M
			var rec func(q core.A)
			rec = func(q core.A) {
				calls = append(calls, core.M{"op": "Run", "q": q})
				if len(q) < max {
					for _, p := range parts {
						rec(append(append(core.A{}, q...), p))
					}
				}
				if len(calls) == 50 {
					one(core.M{}, calls)
					calls = nil
				}
			}
			rec(core.A{})
			for _, cmd := range []string{"cat", "cat; cat", "read x; echo $x; cat", "sh -c cat", "cat >&2; false", "head -c 1000 <&0"} {
				calls = append(calls, core.M{"op": "Cat", "cmd": cmd})
			}
			one(core.M{}, calls)
		},
		Rand: func(r *rand.Rand) (core.M, func(*rand.Rand, core.Obj) core.M) {
			cmd := func(r *rand.Rand, tag string) core.A {
				q := core.A{}
				for n := r.Intn(7); n > 0; n-- {
					p := core.M{"k": []string{"out", "err", "ok", "fail", "exit"}[core.Pick(r, []int{6, 5, 2, 2, 1})], "sep": r.Intn(4)}
					switch p["k"] {
					case "out", "err":
						p["t"], p["n"] = tag+string(rune('a'+r.Intn(4))), 1+r.Intn(3)
						if r.Intn(4) == 0 {
							p["t"] = tag + []string{"error", "Error:", "ERROR", "warning:", "fatal:", "panic:", "failed", "denied", "%d%s", "x-n", "exit", "é"}[r.Intn(12)]
						}
						if r.Intn(12) == 0 {
							p["n"] = 10000 + r.Intn(40000) // more than a pipe holds
						}
					case "exit":
						p["n"] = []int{0, 0, 1, 2, 126, 255}[r.Intn(6)]
					default:
						p["v"] = r.Intn(5)
					}
					q = append(q, p)
				}
				return q
			}
			return core.M{}, func(r *rand.Rand, _ core.Obj) core.M {
				if r.Intn(4) == 0 {
					qs := core.A{}
					for n := 2 + r.Intn(5); n > 0; n-- {
						qs = append(qs, cmd(r, fmt.Sprintf("x%d", n)))
					}
					return core.M{"op": "Par", "qs": qs}
				}
				return core.M{"op": "Run", "q": cmd(r, "")}
			}
		},
	})
	o.Close()
}
