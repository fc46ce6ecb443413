// Package helpers: driver of the text, number and guard helpers of help/utils.
package helpers

import (
	"bytes"
	"crypto/md5"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"io"
	"io/ioutil"
	"math"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/core"
)

func ints(s string) core.A {
	a := core.A{}
	for i := 0; i < len(s); i++ {
		a = append(a, int(s[i]))
	}
	return a
}

func text(c core.M, k string) string {
	var b []byte
	for _, v := range core.Is(c, k) {
		b = append(b, byte(v))
	}
	return string(b)
}

func points(s string) core.A {
	a := core.A{}
	for _, x := range []rune(s) {
		a = append(a, int(x))
	}
	return a
}

func runes(c core.M, k string) string {
	var q []rune
	for _, v := range core.Is(c, k) {
		q = append(q, rune(v))
	}
	return string(q)
}

// limbs of a number, base 2^15
func limbs(n *big.Int) core.A {
	a := core.A{}
	m := new(big.Int).Abs(n)
	for m.Sign() > 0 {
		a = append(a, int(new(big.Int).And(m, big.NewInt(32767)).Int64()))
		m.Rsh(m, 15)
	}
	return a
}

func num(c core.M) *big.Int {
	m := new(big.Int)
	ls := core.Is(c, "n")
	for i := len(ls) - 1; i >= 0; i-- {
		m.Lsh(m, 15)
		m.Add(m, big.NewInt(int64(ls[i])))
	}
	if b, _ := c["neg"].(bool); b {
		m.Neg(m)
	}
	return m
}

func one(f func(core.M) core.A) func(core.M) core.Obj {
	return func(core.M) core.Obj { return &fn{f} }
}

type fn struct{ f func(core.M) core.A }

func (x *fn) Do(c core.M) core.A { return x.f(c) }
func (x *fn) Obs() interface{}   { return nil }

// batches cuts a list of calls into histories
func batches(one func(core.M, []core.M), size int) (add func(core.M), end func()) {
	var l []core.M
	end = func() {
		if len(l) > 0 {
			one(core.M{}, l)
			l = nil
		}
	}
	add = func(c core.M) {
		l = append(l, c)
		if len(l) >= size {
			end()
		}
	}
	return
}

func some(r *rand.Rand, alphabet []int, n int) core.A {
	a := core.A{}
	for i := 0; i < n; i++ {
		a = append(a, alphabet[r.Intn(len(alphabet))])
	}
	return a
}

func all(alphabet []int, n int, f func(core.A)) {
	var rec func(core.A)
	rec = func(s core.A) {
		f(s)
		if len(s) < n {
			for _, c := range alphabet {
				rec(append(append(core.A{}, s...), c))
			}
		}
	}
	rec(core.A{})
}

// ---------------------------------------------------------------- guards

func TestU09(t *testing.T) {
	o := core.Open()
	kinds := []int{'/', '\\', '.', 'a', '\t', ' ', ':'}
	wide := []int{'/', '/', '/', '\\', '.', '.', '.', 'a', 'B', '7', '\t', '\n', '\r', ' ', ':', '@', '?', '#', '%', 0, 11, 127, 0xc2, 0xa0, 0x2e}
	n := 4
	if core.Thorough() {
		n = 6
	}
	core.Run(o, core.Opts{
		New: one(func(c core.M) core.A {
			if core.S(c, "op") == "Site" {
				return core.A{"b", utils.IsSameSiteURLPath(text(c, "s"))}
			}
			return core.A{"b", utils.IsMaliciousPath(text(c, "s"))}
		}),
		Extra: func(h func(core.M, []core.M)) {
			add, end := batches(h, 400)
			all(kinds, n, func(s core.A) {
				add(core.M{"op": "Site", "s": s})
				add(core.M{"op": "Path", "s": s})
			})
			for _, x := range []string{"//host", "http://host", "/\\host", "/url", "/", "", "/\t/host", "/\n\\host", "\t//host", " /a", "javascript:alert(1)",
				"/a//b", "/a/../b", "..", "../a", "a/../../b", "/etc/passwd", "a/b/../..", "a..b", "...", "a/.../b", "./..", "a/..", "a/../..", "C:\\x"} {
				add(core.M{"op": "Site", "s": ints(x)})
				add(core.M{"op": "Path", "s": ints(x)})
			}
			end()
		},
		Rand: func(r *rand.Rand) (core.M, func(*rand.Rand, core.Obj) core.M) {
			return core.M{}, func(r *rand.Rand, _ core.Obj) core.M {
				s := some(r, wide, 1+r.Intn(14))
				if r.Intn(2) == 0 {
					s = append(core.A{int('/')}, s...)
				}
				return core.M{"op": []string{"Site", "Path"}[r.Intn(2)], "s": s}
			}
		}, Salt: 90, N: 40, Len: 100,
	})
	o.Close()
}

// ---------------------------------------------------------------- numbers for people

var sizeRE = regexp.MustCompile(`^(-?)([0-9]+)(?:\.([0-9]+))? (B|KB|MB|GB|TB|PB|EB)$`)

func shown(s string) core.A {
	m := sizeRE.FindStringSubmatch(s)
	if m == nil {
		return core.A{"text", s}
	}
	d, _ := new(big.Int).SetString(m[2]+m[3], 10)
	u := 0
	for i, x := range []string{"B", "KB", "MB", "GB", "TB", "PB", "EB"} {
		if x == m[4] {
			u = i
		}
	}
	return core.A{"v", limbs(d), len(m[3]), u, m[1] == "-"}
}

func display(c core.M) core.A {
	switch core.S(c, "op") {
	case "Size":
		n := num(c).Int64()
		if core.S(c, "f") == "file" {
			return shown(utils.FileSize(n))
		}
		return shown(utils.FormatByte(int(n)))
	case "Round":
		k, m, n := core.I(c, "k"), core.I(c, "m"), core.I(c, "n")
		x := utils.Round(math.Ldexp(float64(k), -m), n)
		q := x * math.Pow10(n)
		w := math.Round(q)
		if math.IsNaN(x) || math.Abs(q-w) > 1e-6 || math.Abs(w) > 1e9 {
			return core.A{"text", strconv.FormatFloat(x, 'g', -1, 64)}
		}
		return core.A{"v", int(w)}
	case "Whole":
		f, _ := new(big.Float).SetInt(num(c)).Float64()
		x := utils.Round(f, 0)
		if x != math.Trunc(x) || math.IsInf(x, 0) {
			return core.A{"text", strconv.FormatFloat(x, 'g', -1, 64)}
		}
		b, _ := big.NewFloat(x).Int(nil)
		return core.A{"v", limbs(b), b.Sign() < 0}
	}
	return nil
}

func TestN02(t *testing.T) {
	o := core.Open()
	size := func(f string, n int64) core.M {
		return core.M{"op": "Size", "f": f, "n": limbs(big.NewInt(n)), "neg": n < 0}
	}
	core.Run(o, core.Opts{
		New: one(display),
		Extra: func(h func(core.M, []core.M)) {
			add, end := batches(h, 60)
			for _, f := range []string{"file", "byte"} {
				for e := uint(0); e < 63; e++ {
					for d := int64(-2); d <= 2; d++ {
						n := int64(1)<<e + d
						for _, q := range []int64{n, n * 10, n / 10, n * 3} {
							if q >= 0 {
								add(size(f, q))
							}
						}
					}
				}
				for n := int64(0); n < 40; n++ {
					add(size(f, n))
				}
				for u := uint(10); u <= 60; u += 10 { // about to be rounded up
					for _, p := range []int64{949, 950, 951, 994, 995, 996, 999, 1000, 1023} {
						for _, q := range []int64{0, 1, 511, 512, 513, 960, 1023} {
							if n := p<<u/100 + q<<u/1024; p>>6<<u>>u == p>>6 && n >= 0 {
								add(size(f, n))
							}
						}
					}
				}
				add(size(f, math.MaxInt64))
			}
			for _, n := range []int64{-1, -1000, -1024, -5000, -1 << 40} {
				add(size("byte", n))
			}
			end()
			for m := 0; m <= 4; m++ {
				for n := -2; n <= 3; n++ {
					for k := -70; k <= 70; k++ {
						add(core.M{"op": "Round", "k": k, "m": m, "n": n})
					}
				}
			}
			for e := uint(0); e < 53; e++ {
				for d := int64(-3); d <= 3; d++ {
					for _, s := range []bool{false, true} {
						if n := int64(1)<<e + d; n >= 0 {
							add(core.M{"op": "Whole", "n": limbs(big.NewInt(n)), "neg": s && n > 0})
						}
					}
				}
			}
			end()
		},
		Rand: func(r *rand.Rand) (core.M, func(*rand.Rand, core.Obj) core.M) {
			return core.M{}, func(r *rand.Rand, _ core.Obj) core.M {
				if r.Intn(2) == 0 {
					n := r.Int63() >> uint(r.Intn(63))
					return size([]string{"file", "byte"}[r.Intn(2)], n)
				}
				n := r.Intn(6) - 2
				k := r.Intn(1<<18) >> uint(r.Intn(18))
				if r.Intn(2) == 0 {
					k = -k
				}
				return core.M{"op": "Round", "k": k, "m": r.Intn(7), "n": n}
			}
		}, Salt: 92, N: 60, Len: 60,
	})
	o.Close()
}

// ---------------------------------------------------------------- codecs

type codec struct {
	json []string
	maps []core.A
}

func (x *codec) Obs() interface{} { return nil }

func pairs(c core.M, k string) map[string]int32 {
	m := map[string]int32{}
	l, _ := c[k].(core.A)
	for _, p := range l {
		kv := p.(core.A)
		m[kv[0].(string)] = kv[1].(int32)
	}
	return m
}

// entries of a map as the specification compares them: a set, so sorted
func entries(m map[string]int32) core.A {
	a := core.A{}
	for _, k := range sorted(m) {
		a = append(a, core.A{points(k), ints(strconv.Itoa(int(m[k])))})
	}
	return a
}

func sorted(m map[string]int32) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

func (x *codec) Do(c core.M) core.A {
	switch core.S(c, "op") {
	case "Enc":
		if core.S(c, "f") == "str" {
			return core.A{"v", ints(utils.Base64Encode(text(c, "s")))}
		}
		b := append(make([]byte, 0, 64), text(c, "s")...)
		s := string(b)
		r := utils.Base64EncodeToByte(b)
		if string(b) != s {
			return core.A{"changed its argument"}
		}
		return core.A{"v", ints(r)}
	case "Dec":
		switch core.S(c, "f") {
		case "tostr":
			return core.A{"v", ints(utils.Base64DecodeToString(text(c, "t")))}
		case "dec":
			return core.A{"v", ints(string(utils.Base64Decode(text(c, "t"))))}
		}
		return core.A{"v", ints(string(utils.Base64DecodeToByte(text(c, "t"))))}
	case "Show":
		n := num(c).Int64()
		if core.S(c, "f") == "int" {
			return core.A{"v", ints(utils.IntToString(int(n)))}
		}
		return core.A{"v", ints(utils.Int64ToString(n))}
	case "Parse":
		var n int64
		if core.S(c, "f") == "int" {
			n = int64(utils.StringToInt(text(c, "t")))
		} else {
			n = utils.StringToInt64(text(c, "t"))
		}
		return core.A{"v", n < 0, limbs(big.NewInt(n))}
	case "Write":
		m := pairs(c, "pairs")
		if n, ok := c["again"].(int); ok && len(x.maps) > 0 {
			c["pairs"] = x.maps[n%len(x.maps)]
			m = pairs(c, "pairs")
		}
		delete(c, "again")
		x.maps = append(x.maps, c["pairs"].(core.A))
		delete(c, "pairs")
		c["m"] = entries(m)
		var s string
		switch core.S(c, "f") {
		case "ints":
			s = utils.MapIntToJsonString(m)
		case "any":
			g := map[string]interface{}{}
			for k, v := range m {
				g[k] = v
			}
			s = utils.MapToJsonString(g)
		case "anything":
			s = utils.Map2JsonString(m)
		}
		x.json = append(x.json, s)
		return core.A{"v", ints(s)}
	case "Read":
		s := core.S(c, "raw")
		delete(c, "raw")
		c["t"] = ints(s)
		return core.A{"v", entries(utils.JsonStringToMap(s))}
	}
	return nil
}

// a text that is JSON or nearly so
func jsonText(r *rand.Rand, depth int) string {
	sp := func() string {
		return []string{"", "", "", "", " ", "\n", "\t", "\r", "\v"}[core.Pick(r, []int{9, 9, 9, 9, 2, 1, 1, 1, 1})]
	}
	number := func() string {
		if r.Intn(2) == 0 {
			return strconv.Itoa(int(r.Int31()>>uint(r.Intn(32))) - int(r.Int31()>>uint(r.Intn(32))))
		}
		return []string{"2147483647", "-2147483648", "2147483648", "-2147483649", "-0", "00", "01", "1.5", "1e1", "1.", ".5", "+1", "-", "1e", "1E+2",
			"0x1", "1_0", "99999999999999999999"}[r.Intn(18)]
	}
	value := func() string {
		switch r.Intn(12) {
		case 0:
			return []string{"null", "true", "false", "nul", "True", "NaN", "\"x\"", "\"\\u00e9\"", "\"\\x\"", "\"\\u12\"", "'x'"}[r.Intn(11)]
		case 1:
			if depth < 3 {
				return jsonText(r, depth+1)
			}
		}
		return number()
	}
	key := func() string {
		return "\"" + []string{"a", "b", "", "A", "a b", "\\u0061", "\\\"", "\x01", "é", "\xff", "a:1"}[core.Pick(r, []int{9, 9, 3, 3, 3, 1, 1, 1, 1, 1, 2})] + "\""
	}
	list := func(open, shut string, one func() string) string {
		s := open + sp()
		for n := r.Intn(4); n > 0; n-- {
			s += one() + sp()
			if n > 1 || r.Intn(12) == 0 {
				s += []string{",", ";", " "}[core.Pick(r, []int{20, 1, 1})] + sp()
			}
		}
		if r.Intn(15) == 0 {
			return s
		}
		return s + shut
	}
	s := ""
	switch core.Pick(r, []int{10, 2, 2}) {
	case 0:
		s = list("{", "}", func() string {
			return key() + sp() + []string{":", "=", ""}[core.Pick(r, []int{30, 1, 1})] + sp() + value()
		})
	case 1:
		s = list("[", "]", value)
	case 2:
		s = value()
	}
	return sp() + s + sp()
}

func TestU10(t *testing.T) {
	o := core.Open()
	std := "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	decode := func(r *rand.Rand, t string, valid bool) core.M {
		return core.M{"op": "Dec", "f": []string{"tostr", "dec", "byte"}[r.Intn(3)], "t": ints(t), "valid": valid}
	}
	keys := []string{"", "a", "b", "A", "a b", "\"", "\\", "<&>", "\u2028", "中", "é", "\t", "\n", "0", "😀", "a\"b", "null", "key"}
	nums := []string{"0", "1", "-1", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809", "00", "+5", "-0", "007",
		"", "-", "+", "abc", "1a", " 1", "1 ", "0x10", "1_000", "1e3", "1.5", "--1", "4294967296", "2147483648", "-2147483649", "99999999999999999999", "١"}
	core.Run(o, core.Opts{
		New: func(core.M) core.Obj { return &codec{} },
		Extra: func(h func(core.M, []core.M)) {
			add, end := batches(h, 100)
			r := core.Rng(1010)
			for n := 0; n < 3; n++ {
				for _, b := range []int{0, 1, 62, 63, 64, 127, 128, 200, 251, 252, 255} {
					for _, f := range []string{"str", "byte"} {
						s := append(some(r, []int{0, 255, 77}, n), b)
						add(core.M{"op": "Enc", "f": f, "s": s})
					}
				}
			}
			for _, n := range []int{100, 255, 256, 511, 512, 513, 767, 768, 769, 1023, 1024, 1025, 3071, 3072, 3073, 5000, 20000} {
				b := make([]byte, n)
				r.Read(b)
				add(core.M{"op": "Enc", "f": []string{"str", "byte"}[n%2], "s": ints(string(b))})
				s := base64.StdEncoding.EncodeToString(b)
				for _, f := range []string{"tostr", "dec", "byte"} {
					c := decode(r, s, true)
					c["f"] = f
					add(c)
				}
				end()
			}
			for _, s := range nums {
				for _, f := range []string{"int", "int64"} {
					add(core.M{"op": "Parse", "f": f, "t": ints(s)})
				}
			}
			for e := uint(0); e < 63; e++ {
				for _, n := range []int64{1 << e, 1<<e - 1, -1 << e, -(1 << e) - 1} {
					for _, f := range []string{"int", "int64"} {
						add(core.M{"op": "Show", "f": f, "n": limbs(big.NewInt(n)), "neg": n < 0})
						add(core.M{"op": "Parse", "f": f, "t": ints(strconv.FormatInt(n, 10))})
					}
				}
			}
			end()
		},
		Rand: func(r *rand.Rand) (core.M, func(*rand.Rand, core.Obj) core.M) {
			return core.M{}, func(r *rand.Rand, ob core.Obj) core.M {
				switch core.Pick(r, []int{3, 3, 2, 2, 4, 4}) {
				case 0:
					b := make([]byte, r.Intn(24))
					r.Read(b)
					return core.M{"op": "Enc", "f": []string{"str", "byte"}[r.Intn(2)], "s": ints(string(b))}
				case 1:
					b := make([]byte, r.Intn(24))
					r.Read(b)
					s := base64.StdEncoding.EncodeToString(b)
					if r.Intn(4) > 0 {
						return decode(r, s, true)
					}
					x := []byte(s)
					for i := range x {
						if r.Intn(6) == 0 {
							x[i] = (std + "=-_ \n")[r.Intn(69)]
						}
					}
					return decode(r, string(x[r.Intn(len(x)+1):]), false)
				case 2:
					n := r.Int63()>>uint(r.Intn(63)) - r.Int63()>>uint(r.Intn(63))
					return core.M{"op": "Show", "f": []string{"int", "int64"}[r.Intn(2)], "n": limbs(big.NewInt(n)), "neg": n < 0}
				case 3:
					s := strconv.FormatInt(r.Int63()>>uint(r.Intn(63))-r.Int63()>>uint(r.Intn(63)), 10)
					switch r.Intn(6) {
					case 0:
						s = string("+-0 x"[r.Intn(5)]) + s
					case 1:
						s += string("+-0 x"[r.Intn(5)])
					case 2:
						s = nums[r.Intn(len(nums))]
					}
					return core.M{"op": "Parse", "f": []string{"int", "int64"}[r.Intn(2)], "t": ints(s)}
				case 4:
					l := core.A{}
					for n := r.Intn(4); n > 0; n-- {
						v := int32(r.Intn(3))
						if r.Intn(3) == 0 {
							v = int32(r.Uint32())
						}
						l = append(l, core.A{keys[r.Intn(len(keys))], v})
					}
					w := core.M{"op": "Write", "f": []string{"ints", "any", "anything"}[r.Intn(3)], "pairs": l}
					if r.Intn(3) == 0 {
						w["again"] = r.Intn(1 << 20)
					}
					return w
				}
				x := ob.(*codec)
				if len(x.json) == 0 || r.Intn(6) == 0 {
					return core.M{"op": "Read", "raw": jsonText(r, 0)}
				}
				s := x.json[r.Intn(len(x.json))]
				if r.Intn(2) == 0 {
					return core.M{"op": "Read", "raw": s}
				}
				// a small change
				i := r.Intn(len(s) + 1)
				switch r.Intn(5) {
				case 0:
					s = s[:i]
				case 1:
					s += s
				case 2:
					s = s[:i] + []string{"{", "}", "[", "]", ",", ":", "\"", "\\", " ", "\n", "0", "1", "-", ".", "e", "x", "\t", "\r", "null", "1,", "\x00"}[r.Intn(21)] + s[i:]
				case 3:
					if i < len(s) {
						s = s[:i] + s[i+1:]
					}
				case 4:
					s += []string{" ", "\n", " x", ",", "}", "{}", "null"}[r.Intn(7)]
				}
				return core.M{"op": "Read", "raw": s}
			}
		}, Salt: 91, N: 60, Len: 80,
	})
	o.Close()
}

// ---------------------------------------------------------------- words

type words struct{ maps []map[string]bool }

func (x *words) Obs() interface{} { return nil }

var t0 = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)

func (x *words) Do(c core.M) core.A {
	switch core.S(c, "op") {
	case "Url":
		var ps []interface{}
		shown := core.A{}
		l, _ := c["args"].([]interface{})
		for _, p := range l {
			ps = append(ps, p)
			switch v := p.(type) {
			case string:
				shown = append(shown, points(v))
			case int:
				shown = append(shown, points(strconv.Itoa(v)))
			case int64:
				shown = append(shown, points(strconv.FormatInt(v, 10)))
			case bool:
				shown = append(shown, points(strconv.FormatBool(v)))
			}
		}
		delete(c, "args")
		c["ps"] = shown
		return core.A{"v", points(utils.BuildUrl(runes(c, "s"), ps...))}
	case "Suffix":
		return core.A{"v", points(utils.GetSuffixName(runes(c, "s"), runes(c, "seg")))}
	case "Image":
		return core.A{"b", utils.IsImage(runes(c, "s"))}
	case "Upper":
		return core.A{"v", points(utils.UpperFirst(runes(c, "s")))}
	case "Cut":
		return core.A{"v", points(utils.Substr2(runes(c, "s"), core.I(c, "a"), core.I(c, "b")))}
	case "Home":
		was := os.Args
		defer func() { os.Args = was }()
		os.Args = append([]string{runes(c, "s")}, was[1:]...)
		wd, err := os.Getwd()
		if err != nil {
			panic(core.Bug(err.Error()))
		}
		c["wd"] = points(wd)
		return core.A{"v", points(utils.GetCurrentDir())}
	case "Kind":
		d := []byte(text(c, "d"))
		return core.A{"k", core.A{utils.IsTextFile(d), utils.IsImageFile(d), utils.IsPDFFile(d), utils.IsVideoFile(d)}}
	case "Day":
		return core.A{"v", points(utils.GetTimeDir())}
	case "SetSw":
		utils.SetSwitchFromOptions(x.maps[core.I(c, "o")], core.S(c, "k"), c["b"].(bool))
		return core.A{"v"}
	case "GetSw":
		return core.A{"b", utils.GetSwitchFromOptions(x.maps[core.I(c, "o")], core.S(c, "k"))}
	case "NilSw":
		return core.A{"b", utils.GetSwitchFromOptions(nil, core.S(c, "k"))}
	}
	return nil
}

func TestU11(t *testing.T) {
	o := core.Open()
	segs := []string{".", "/", "..", "ab", ".a", "中", "aa", "", "a.b"}
	letters := []int{'a', 'b', '.', '/', 'A', '中', ' '}
	exts := []string{"png", "jpg", "JPEG", "gif", "bmp", "tif", "Tiff", "txt", "png ", " jpg", "pngx", "xpng", "", "png\t", "jp g", "svg", "webp"}
	args := []interface{}{"", "a", "0", 0, 7, "id", "a/b", "/", "x/", int64(12), true, "00", "中", int64(0), "a b", "/0"}
	first := []int{'a', 'z', 'A', '1', '中', 'é', 'ÿ', 'ß', 'я', 'Я', '😀', '{', '`', 0xe9, '÷', 0x1c6, 0xfffd}
	sigs := []string{"\x89PNG\r\n\x1a\n", "GIF87a", "GIF89a", "\xff\xd8\xff", "BM", "RIFFabcdWEBPVP", "%PDF-", "\x1a\x45\xdf\xa3", "RIFFabcdAVI ", "plain text",
		"", "\x00", "%PDF", "GIF88a", "\x89PNG", "RIFFabcdWAVE", "<html>", "\xff\xfe", "\x7fELF", "PK\x03\x04", " %PDF-", "hello %PDF- BM", "a\x01"}
	core.Run(o, core.Opts{
		New: func(core.M) core.Obj { return &words{[]map[string]bool{nil, {}, {}, {}}} },
		Extra: func(h func(core.M, []core.M)) {
			add, end := batches(h, 150)
			all([]int{'a', '.', '/'}, 4, func(s core.A) {
				for _, g := range segs {
					add(core.M{"op": "Suffix", "s": s, "seg": points(g)})
				}
			})
			for _, e := range exts {
				for _, p := range []string{"a.", ".", "a.b.", "a/b.", "", "png.", "a.png/", "a.png."} {
					add(core.M{"op": "Image", "s": points(p + e)})
				}
			}
			for _, c := range first {
				for _, s := range []string{"", "a", "aA", "中a", string(rune(c))} {
					add(core.M{"op": "Upper", "s": points(string(rune(c)) + s)})
				}
			}
			add(core.M{"op": "Upper", "s": core.A{}})
			for _, s := range []string{"", "a", "ab", "中文", "é中a", "abcd", "中文字符串", "abcdefgh"} {
				n := len([]rune(s))
				for a := -1; a <= n+2; a++ {
					for b := -1; b <= n+4; b++ {
						add(core.M{"op": "Cut", "s": points(s), "a": a, "b": b})
					}
				}
			}
			for _, s := range []string{"/a/b/prog", "prog", "./prog", "../prog", "a/../b/prog", "//a//prog", "/prog", "/../prog", "a\\b/prog", "中/prog", "../../../../../../../../../../prog", "a/./prog"} {
				add(core.M{"op": "Home", "s": points(s)})
			}
			for _, p := range []string{"", "/", "a", "/a", "a/", "//a//", "a/b", " "} {
				add(core.M{"op": "Url", "s": points(p), "args": []interface{}{}})
				for _, k := range args {
					add(core.M{"op": "Url", "s": points(p), "args": []interface{}{k}})
					for _, v := range args {
						add(core.M{"op": "Url", "s": points(p), "args": []interface{}{k, v}})
					}
				}
			}
			for _, s := range sigs {
				for _, tail := range []string{"", "tail", "\x00\x01", strings.Repeat("x", 600)} {
					add(core.M{"op": "Kind", "d": ints(s + tail)})
				}
			}
			end()
			// days, in several zones
			local := time.Local
			defer func() { time.Local = local }()
			r := core.Rng(1111)
			for k := 0; k < core.N(40); k++ {
				off := []int{0, 8 * 3600, -5 * 3600, 14 * 3600, -12 * 3600, 5*3600 + 1800}[r.Intn(6)]
				synctest.Test(t, func(*testing.T) {
					time.Local = time.FixedZone("z", off)
					days := r.Intn(50000)
					if r.Intn(2) == 0 { // near the end of a month or year
						days = 365*r.Intn(130) + r.Intn(40) + r.Intn(31)
					}
					at := t0.Add(time.Duration(days) * 24 * time.Hour).Add(time.Duration(r.Intn(86400)) * time.Second)
					if r.Intn(2) == 0 { // about local midnight
						at = t0.Add(time.Duration(days)*24*time.Hour - time.Duration(off)*time.Second + []time.Duration{-1, 0, 1}[r.Intn(3)])
					}
					if d := at.Sub(time.Now()); d > 0 {
						time.Sleep(d)
					}
					day := (time.Now().Unix() + int64(off)) / 86400
					h(core.M{}, []core.M{{"op": "Day", "d": int(day)}})
				})
			}
		},
		Rand: func(r *rand.Rand) (core.M, func(*rand.Rand, core.Obj) core.M) {
			return core.M{}, func(r *rand.Rand, _ core.Obj) core.M {
				switch core.Pick(r, []int{3, 3, 2, 2, 3, 3, 4, 1, 2, 1}) {
				case 0:
					var l []interface{}
					for n := r.Intn(8); n > 0; n-- {
						l = append(l, args[r.Intn(len(args))])
					}
					return core.M{"op": "Url", "s": some(r, []int{'a', '/', '0', '中'}, r.Intn(6)), "args": l}
				case 1:
					return core.M{"op": "Suffix", "s": some(r, letters, r.Intn(12)), "seg": points(segs[r.Intn(len(segs))])}
				case 2:
					return core.M{"op": "Image", "s": append(some(r, letters, r.Intn(6)), points("."+exts[r.Intn(len(exts))])...)}
				case 3:
					return core.M{"op": "Upper", "s": append(core.A{first[r.Intn(len(first))]}, some(r, letters, r.Intn(6))...)}
				case 4:
					b := make([]byte, r.Intn(20))
					r.Read(b)
					if r.Intn(2) == 0 {
						for i := range b {
							b[i] = ' ' + b[i]%95
						}
					}
					return core.M{"op": "Kind", "d": ints(sigs[r.Intn(len(sigs))] + string(b))}
				case 5:
					return core.M{"op": "SetSw", "o": 1 + r.Intn(3), "k": string(rune('a' + r.Intn(3))), "b": r.Intn(2) == 0}
				case 6:
					return core.M{"op": "GetSw", "o": 1 + r.Intn(3), "k": string(rune('a' + r.Intn(3)))}
				}
				if k := r.Intn(3); k == 0 {
					return core.M{"op": "NilSw", "k": "a"}
				} else if k == 1 {
					return core.M{"op": "Home", "s": append(some(r, []int{'a', '.', '/', '.', '/', '\\'}, r.Intn(12)), points("prog")...)}
				}
				n := r.Intn(12)
				return core.M{"op": "Cut", "s": some(r, first, n), "a": r.Intn(n+2) - r.Intn(2), "b": r.Intn(n+4) - r.Intn(2)}
			}
		}, Salt: 93, N: 60, Len: 80,
	})
	o.Close()
}

// ---------------------------------------------------------------- digests

// flow gives its content in pieces, then the error (io.EOF: none)
type flow struct {
	r    *rand.Rand
	rest []byte
	err  error
}

func (f *flow) Read(p []byte) (int, error) {
	if len(f.rest) == 0 {
		return 0, f.err
	}
	n := 1 + f.r.Intn(len(f.rest))
	if n > len(p) {
		n = len(p)
	}
	copy(p, f.rest[:n])
	f.rest = f.rest[n:]
	if len(f.rest) == 0 && f.r.Intn(2) == 0 {
		return n, f.err
	}
	return n, nil
}

// lengthy: n bytes of a stream, one of them changed
func lengthy(c core.M) []byte {
	b := make([]byte, core.I(c, "n"))
	rand.New(rand.NewSource(int64(core.I(c, "seed")))).Read(b)
	if v := core.I(c, "value"); v != 0 {
		b[core.I(c, "place")] ^= byte(v)
	}
	return b
}

func lengthyName(r *rand.Rand, sizes []int, whole bool) core.M {
	n := sizes[r.Intn(len(sizes))]
	c := core.M{"op": "Long", "f": []string{"md5", "crypt", "read", "read", "file", "file"}[r.Intn(6)], "n": n, "seed": r.Intn(2), "value": 0, "place": 0, "whole": true}
	if n > 0 && r.Intn(2) == 0 {
		c["value"], c["place"] = 1<<r.Intn(8), []int{0, n / 2, n - 1, n - 1, r.Intn(n)}[r.Intn(5)]
	}
	if f := core.S(c, "f"); (f == "read" || f == "file") && !whole {
		c["whole"] = false
	}
	c["k"] = strconv.Itoa(n) + "/" + strconv.Itoa(core.I(c, "seed")) + "/" + strconv.Itoa(core.I(c, "value")) + "/" + strconv.Itoa(core.I(c, "place"))
	return c
}

func TestU12(t *testing.T) {
	o := core.Open()
	dir, err := ioutil.TempDir("", "digest")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	sum := func(r *rand.Rand, s []byte) core.M {
		switch r.Intn(5) {
		case 0, 1:
			return core.M{"op": "Sum", "f": []string{"md5", "crypt"}[r.Intn(2)], "s": ints(string(s)), "whole": true}
		case 2, 3:
			return core.M{"op": "Read", "s": ints(string(s)), "whole": r.Intn(4) > 0, "seed": r.Intn(1000)}
		}
		return core.M{"op": "File", "s": ints(string(s)), "whole": r.Intn(4) > 0}
	}
	content := func(r *rand.Rand) []byte {
		n := r.Intn(70)
		switch r.Intn(4) {
		case 0:
			n = []int{0, 1, 54, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128}[r.Intn(13)]
		case 1:
			n = r.Intn(260)
		}
		b := make([]byte, n)
		r.Read(b)
		return b
	}
	core.Run(o, core.Opts{
		New: one(func(c core.M) core.A {
			var s string
			if core.S(c, "op") == "Long" {
				b := lengthy(c)
				h := md5.Sum(b)
				s, c["sum"] = string(b), ints(hex.EncodeToString(h[:]))
			} else {
				s = text(c, "s")
			}
			op := core.S(c, "op")
			if op == "Long" {
				op = map[string]string{"md5": "Sum", "crypt": "Sum", "read": "Read", "file": "File"}[core.S(c, "f")]
			}
			switch op {
			case "Sum":
				if core.S(c, "f") == "md5" {
					return core.A{"v", ints(utils.Md5(s))}
				}
				return core.A{"v", ints(utils.Md5Crypt(s))}
			case "Read":
				f := &flow{rand.New(rand.NewSource(int64(core.I(c, "seed")))), []byte(s), io.EOF}
				if !c["whole"].(bool) {
					f.err = errors.New("broken")
				}
				return core.A{"v", ints(utils.ComputeFileMD5(f))}
			case "File":
				p := filepath.Join(dir, "f")
				if c["whole"].(bool) {
					if err := ioutil.WriteFile(p, []byte(s), 0600); err != nil {
						panic(err)
					}
				} else {
					p = dir // cannot be read
					if len(s)%2 == 0 {
						p = filepath.Join(dir, "missing")
					}
				}
				x, err := utils.FileMd5(p)
				if err != nil {
					return core.A{"err"}
				}
				return core.A{"v", ints(x)}
			}
			return nil
		}),
		Extra: func(h func(core.M, []core.M)) {
			add, end := batches(h, 20)
			r := core.Rng(1313)
			for n := 0; n <= 130; n++ {
				add(sum(r, bytes.Repeat([]byte{byte(n)}, n)))
			}
			big := make([]byte, 5000)
			r.Read(big)
			for i := 0; i < 6; i++ {
				add(sum(r, big[:1000*i%4001+i]))
			}
			end()
			for k := 0; k < 12; k++ {
				sizes := []int{4095, 4096, 4097, 32768, 65535, 65536, 65537, 70001, 1<<20 - 1, 1 << 20, 1<<20 + 1, 3<<20 + 5}
				if k%4 > 0 {
					n := r.Intn(len(sizes))
					sizes = []int{sizes[n]}
				}
				if k == 0 && core.Thorough() {
					sizes = append(sizes, 1<<25+1, 1<<27+3)
				}
				for i := 0; i < 20; i++ {
					add(lengthyName(r, sizes, r.Intn(8) > 0))
				}
				end()
			}
		},
		Rand: func(r *rand.Rand) (core.M, func(*rand.Rand, core.Obj) core.M) {
			return core.M{}, func(r *rand.Rand, _ core.Obj) core.M { return sum(r, content(r)) }
		}, Salt: 94, N: 30, Len: 20,
	})
	o.Close()
}
