package texts

import (
	"math"
	"math/rand"
	"testing"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/core"
)

func points(s string) core.A {
	a := core.A{}
	for _, x := range []rune(s) {
		a = append(a, int(x))
	}
	return a
}

type maskObj struct{ raw string }

func (x *maskObj) Obs() interface{} { return nil }

// hugeN stands for the largest int
const hugeN = 1000000

func (x *maskObj) Do(c core.M) core.A {
	s, ok := c["raw"].(string)
	delete(c, "raw")
	if !ok {
		var q []rune
		for _, v := range core.Is(c, "s") {
			q = append(q, rune(v))
		}
		s = string(q)
	}
	c["s"] = points(s)
	n := core.I(c, "n")
	switch n {
	case hugeN:
		n = math.MaxInt
	case -hugeN:
		n = math.MinInt
	}
	var out string
	switch core.S(c, "f") {
	case "mobile":
		out = utils.MaskMobile(s, n)
	case "id":
		out = utils.MaskIDCard(s, n)
	case "bank":
		out = utils.MaskBackCard(s, n)
	case "name":
		out = utils.MaskCustomerName(s)
	case "star":
		out = utils.HideStar(s)
	}
	return core.A{"v", points(out)}
}

var maskFns = []string{"mobile", "id", "bank", "name", "star"}

func TestU06(t *testing.T) {
	o := core.Open()
	alphabet := []int{'1', '2', '@', 'a', '中'}
	core.Run(o, core.Opts{
		New: func(core.M) core.Obj { return &maskObj{} }, Cfgs: []core.M{{}}, Salt: 86, N: 300, Len: 80,
		Extra: func(one func(core.M, []core.M)) {
			calls := []core.M{}
			flush := func(force bool) {
				if len(calls) > 150 || force {
					one(core.M{}, calls)
					calls = nil
				}
			}
			add := func(s core.A, ns ...int) {
				for _, f := range maskFns {
					for i, n := range ns {
						if i == 0 || f == "mobile" || f == "id" || f == "bank" {
							calls = append(calls, core.M{"op": "Mask", "f": f, "s": s, "n": n})
						}
					}
				}
				flush(false)
			}
			// every short text over the model's alphabet
			max := 4
			if core.Thorough() {
				max = 6
			}
			var rec func(s core.A)
			rec = func(s core.A) {
				add(s, len(s)/2)
				if len(s) < max {
					for _, a := range alphabet {
						rec(append(append(core.A{}, s...), a))
					}
				}
			}
			rec(core.A{})
			// every length around the boundaries, every number masked
			for n := 0; n <= 26; n++ {
				for _, wide := range []bool{false, true} {
					s := core.A{}
					for i := 0; i < n; i++ {
						if wide && i%2 == 1 {
							s = append(s, 0x4e00+i)
						} else {
							s = append(s, '1'+i%9)
						}
					}
					ns := []int{}
					for k := -5; k <= n+2; k++ {
						ns = append(ns, k)
					}
					ns = append(ns, hugeN, -hugeN)
					add(s, ns...)
				}
			}
			// phone numbers and what is nearly one
			for _, s := range []string{"13800138000", "10800138000", "23800138000", "1380013800", "138001380001",
				"1380013800a", "13800138000\n", " 13800138000", "1３800138000", "19999999999", "1a345678901", "a@b", "@", "@@", "ab@c@d", "abc@c",
				"abcd@", "中文字@x", "中文@x", "a b c@d e", "***", "\U0001F600\U0001F601", "é́", "张三", "欧阳修", "司马相如", "阿卜杜拉a"} {
				add(points(s), 4, 0, 1)
			}
			// not valid UTF-8
			for _, s := range []string{"\xff", "\xe4\xb8", "ab\xffcd", "\xff\xfe\xfd\xfc\xfb\xfa", "\xe4@\xe4\xb8", "1\xff345678901", "\xed\xa0\x80", "\x00\x00\x00\x00\x00\x00"} {
				for _, f := range maskFns {
					calls = append(calls, core.M{"op": "Mask", "f": f, "raw": s, "n": 2})
				}
			}
			flush(true)
		},
		Rand: func(r *rand.Rand) (core.M, func(*rand.Rand, core.Obj) core.M) {
			return core.M{}, func(r *rand.Rand, _ core.Obj) core.M {
				c := core.M{"op": "Mask", "f": maskFns[r.Intn(5)], "n": r.Intn(14) - 1}
				s := core.A{}
				mode := r.Intn(4)
				for n := r.Intn(25); n > 0; n-- {
					switch {
					case mode == 0:
						s = append(s, '0'+r.Intn(10))
					case mode == 1:
						s = append(s, 0x4e00+r.Intn(5000))
					case mode == 2:
						s = append(s, []int{'@', 'a', 'z', '.', '1', '*', 0x4e2d}[r.Intn(7)])
					default:
						s = append(s, []int{r.Intn(128), r.Intn(0x800), 0x10000 + r.Intn(0x10000)}[r.Intn(3)])
					}
				}
				if mode == 0 && r.Intn(2) == 0 {
					s = append(core.A{int('1')}, s...)
					for len(s) < 11 {
						s = append(s, '0'+r.Intn(10))
					}
					s = s[:11]
				}
				c["s"] = s
				return c
			}
		},
	})
	o.Close()
}
