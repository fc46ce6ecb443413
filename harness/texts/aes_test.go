// Package texts: drivers of help/utils that work on texts and bytes.
package texts

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"math/rand"
	"testing"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/core"
)

func ints(b []byte) core.A {
	a := make(core.A, len(b))
	for i, x := range b {
		a[i] = int(x)
	}
	return a
}

func unints(c core.M, k string) []byte {
	v := core.Is(c, k)
	b := make([]byte, len(v))
	for i, x := range v {
		b[i] = byte(x)
	}
	return b
}

type aesObj struct {
	mem     bool
	results [][]byte
	copies  [][]byte
	cts     []core.M // earlier successful encryptions: k, d
}

func (x *aesObj) Obs() interface{} {
	ok := true
	for i := range x.results {
		ok = ok && bytes.Equal(x.results[i], x.copies[i])
	}
	return core.M{"mem": x.mem, "old": ok}
}

// a slice inside a larger array of known content
func within(b []byte, front, spare int) (slice, whole []byte) {
	whole = make([]byte, front+len(b)+spare)
	for i := range whole {
		whole[i] = byte(i*31 + 7)
	}
	copy(whole[front:], b)
	return whole[front : front+len(b)], whole
}

// the block mode alone
func rawCBC(d, k []byte) []byte {
	b, err := aes.NewCipher(k)
	if err != nil || len(d) == 0 || len(d)%16 != 0 {
		return nil
	}
	out := make([]byte, len(d))
	cipher.NewCBCDecrypter(b, k[:16]).CryptBlocks(out, d)
	return out
}

func (x *aesObj) Do(c core.M) core.A {
	k, kw := within(unints(c, "k"), 3, core.I2(c, "spare", 0))
	in := "v"
	if c["op"] == "Dec" {
		in = "d"
	}
	d, dw := within(unints(c, in), 5, core.I2(c, "spare", 0))
	k0, d0 := append([]byte{}, kw...), append([]byte{}, dw...)
	var out []byte
	var err error
	x.mem = false
	if in == "v" {
		out, err = utils.AesEncrypt(d, k)
	} else {
		c["raw"] = ints(rawCBC(d, k))
		out, err = utils.AesDecrypt(d, k)
	}
	x.mem = bytes.Equal(k0, kw) && bytes.Equal(d0, dw)
	if err != nil {
		return core.A{"err"}
	}
	if len(x.results) < 50 {
		x.results = append(x.results, out)
		x.copies = append(x.copies, append([]byte{}, out...))
	}
	if in == "v" {
		x.cts = append(x.cts, core.M{"k": c["k"], "d": ints(out)})
	}
	return core.A{"v", ints(out)}
}

func TestU05(t *testing.T) {
	o := core.Open()
	key := func(r *rand.Rand, n int) core.A {
		b := make([]byte, n)
		r.Read(b)
		return ints(b)
	}
	core.Run(o, core.Opts{
		New: func(core.M) core.Obj { return &aesObj{mem: true} }, Cfgs: []core.M{{}}, Salt: 85, N: 100, Len: 60,
		Extra: func(one func(core.M, []core.M)) {
			// every length, with and without spare capacity
			r := core.Rng(850)
			for _, n := range []int{16, 24, 32} {
				for spare := 0; spare < 34; spare += 1 + r.Intn(16) {
					k := key(r, n)
					var calls []core.M
					for l := 0; l <= 67; l++ {
						calls = append(calls, core.M{"op": "Enc", "k": k, "v": key(r, l), "spare": spare})
					}
					one(core.M{}, calls)
				}
			}
			for n := 0; n <= 40; n++ {
				one(core.M{}, []core.M{{"op": "Enc", "k": key(r, n), "v": key(r, 5)}, {"op": "Dec", "k": key(r, n), "d": key(r, 16)}})
			}
			// every padding value and every way one padding byte can be wrong
			k := key(r, 16)
			kb := unints(core.M{"k": k}, "k")
			blk, _ := aes.NewCipher(kb)
			for p := 0; p <= 40; p++ {
				var calls []core.M
				for wrong := -1; wrong < 16 && wrong < p; wrong++ {
					for _, blocks := range []int{1, 2} {
						raw := make([]byte, 16*blocks)
						for i := range raw {
							raw[i] = byte(100 + i)
						}
						for i := 0; i < p && i < len(raw); i++ {
							raw[len(raw)-1-i] = byte(p)
						}
						if p == 0 {
							raw[len(raw)-1] = 0
						}
						if wrong >= 1 {
							raw[len(raw)-1-wrong] ^= 1
						}
						ct := make([]byte, len(raw))
						cipher.NewCBCEncrypter(blk, kb[:16]).CryptBlocks(ct, raw)
						calls = append(calls, core.M{"op": "Dec", "k": k, "d": ints(ct)})
					}
				}
				one(core.M{}, calls)
			}
		},
		Rand: func(r *rand.Rand) (core.M, func(*rand.Rand, core.Obj) core.M) {
			var keys []core.A
			for i := 0; i < 3; i++ {
				keys = append(keys, key(r, []int{16, 24, 32}[r.Intn(3)]))
			}
			keys = append(keys, key(r, r.Intn(40)))
			var texts []core.A
			for i := 0; i < 6; i++ {
				n := r.Intn(70)
				if r.Intn(10) == 0 {
					n = 1000 + r.Intn(40)
				}
				texts = append(texts, key(r, n))
				if n > 16 { // ends like padding
					texts[i][n-1] = 1
				}
			}
			return core.M{}, func(r *rand.Rand, ob core.Obj) core.M {
				x := ob.(*aesObj)
				k := keys[core.Pick(r, []int{4, 4, 2, 1})]
				c := core.M{"k": k, "spare": r.Intn(40)}
				if len(x.cts) == 0 || r.Intn(5) < 2 {
					c["op"], c["v"] = "Enc", texts[r.Intn(len(texts))]
					return c
				}
				c["op"] = "Dec"
				old := x.cts[r.Intn(len(x.cts))]
				d := append(core.A{}, old["d"].(core.A)...)
				switch r.Intn(7) {
				case 0: // cut
					d = d[:r.Intn(len(d))]
				case 1: // damaged
					d[r.Intn(len(d))] = r.Intn(256)
				case 2: // wrong key
				case 3:
					d = key(r, []int{0, 1, 15, 16, 17, 32, 48}[r.Intn(7)])
				case 4: // whole blocks cut off, or one added
					if len(d) > 16 {
						d = d[:16*(1+r.Intn(len(d)/16))]
					}
				default:
					c["k"] = old["k"]
				}
				c["d"] = d
				return c
			}
		},
	})
	o.Close()
}
