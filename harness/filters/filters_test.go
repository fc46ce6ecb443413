// Package filters: drivers of the bloom filter and the hasher.
package filters

import (
	"encoding/hex"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/filter/bloom"
	"github.com/ahKevinXy/go-web-tools/common/hash"
	"github.com/ahKevinXy/go-web-tools/zzverif/core"
)

type filt struct {
	f    [2]*bloom.Filter
	o    int
	room []byte
}

// a key is "n<decimal>" or "b<content>"; model keys 1..3 are fixed ones
var modelKeys = []string{"", "n18446744073709551615", "b", "b6b6579"}

func key(c core.M) string {
	if s, ok := c["k"].(string); ok {
		return s
	}
	return modelKeys[core.I(c, "k")]
}

func (x *filt) Do(c core.M) core.A {
	x.o = core.I(c, "o") - 1
	f := x.f[x.o]
	if c["op"] == "Clear" {
		f.Clear()
		return core.A{}
	}
	k := key(c)
	var n uint64
	var b []byte
	if k[0] == 'n' {
		n, _ = strconv.ParseUint(k[1:], 10, 64)
	} else {
		b = content(k[1:])
	}
	if c["via"] == "again" { // in the memory of the last key
		x.room = append(x.room[:0], b...)
		b = x.room
	}
	via := c["via"]
	if via == nil {
		via = "bytes"
	}
	switch {
	case c["op"] == "Add" && k[0] == 'n':
		f.Add(n)
	case c["op"] == "Add" && via != "string":
		f.AddBytes(b)
	case c["op"] == "Add":
		f.AddString(string(b))
	case c["op"] == "Has" && k[0] == 'n':
		return core.A{"b", f.Contains(n)}
	case c["op"] == "Has" && via != "string":
		return core.A{"b", f.ContainsBytes(b)}
	case c["op"] == "Has":
		return core.A{"b", f.ContainsString(string(b))}
	default:
		panic(core.Bug("op"))
	}
	return core.A{}
}

func (x *filt) Obs() interface{} { return core.M{"len": int64(x.f[x.o].Len() & 0x7fffffff)} }

func newFilt(cfg core.M) core.Obj {
	time.Sleep(12345)
	c, p := uint64(core.I(cfg, "cap")), float64(core.I(cfg, "fp"))/1000
	return &filt{f: [2]*bloom.Filter{bloom.New(c, p), bloom.New(c, p)}}
}

func TestF01(t *testing.T) {
	o := core.Open()
	synctest.Test(t, func(*testing.T) {
		core.Run(o, core.Opts{
			New:  newFilt,
			Cfgs: []core.M{{"cap": 1, "fp": 10}, {"cap": 1, "fp": 900}, {"cap": 100, "fp": 1}},
			Salt: 21, N: 300, Len: 200,
			Rand: func(r *rand.Rand) (core.M, func(*rand.Rand, core.Obj) core.M) {
				cfg := core.M{"cap": 1 + r.Intn(200), "fp": []int{1, 10, 100, 500, 900}[r.Intn(5)]}
				keys := []string{}
				for i := 0; i < 5+r.Intn(120); i++ {
					switch r.Intn(5) {
					case 4:
						n := []int{64, 100, 1000, 5000}[r.Intn(4)]
						keys = append(keys, "b"+long(n, 1, []int{0, n / 2, n - 1}[r.Intn(3)], r.Intn(256)))
					case 0:
						keys = append(keys, fmt.Sprintf("n%d", r.Uint64()))
					case 1:
						keys = append(keys, fmt.Sprintf("n%d", r.Intn(100)))
					case 2:
						b := make([]byte, r.Intn(20))
						r.Read(b)
						keys = append(keys, "b"+hex.EncodeToString(b))
					case 3:
						keys = append(keys, "b"+hex.EncodeToString([]byte(fmt.Sprintf("key-%d", i))))
					}
				}
				w := []int{1 + r.Intn(4), 2 + r.Intn(4), 0}
				if r.Intn(2) == 0 {
					w[2] = 1
				}
				return cfg, func(r *rand.Rand, _ core.Obj) core.M {
					op := []string{"Add", "Has", "Clear"}[core.Pick(r, w)]
					if op == "Clear" && r.Intn(8) > 0 {
						op = "Has"
					}
					c := core.M{"op": op, "o": 1 + r.Intn(2)}
					if op != "Clear" {
						c["k"] = keys[r.Intn(len(keys))]
						c["via"] = []string{"bytes", "string", "again"}[r.Intn(3)]
					}
					return c
				}
			},
			// large filters, filled beyond their capacity
			Extra: func(one func(core.M, []core.M)) {
				r := core.Rng(211)
				for _, cp := range []int{1000, 7000, 200000} {
					var cs []core.M
					n := 1500
					for i := 0; i < n; i++ {
						k := []string{fmt.Sprintf("n%d", r.Uint64()), fmt.Sprintf("n%d", i), fmt.Sprintf("b%x", "key-"+strconv.Itoa(i)), "b" + long(300, i/255, 7, 1+i%255)}[i%4]
						cs = append(cs, core.M{"op": "Add", "o": 1, "k": k, "via": []string{"bytes", "string", "again"}[r.Intn(3)]})
					}
					for _, i := range r.Perm(n) {
						cs = append(cs, core.M{"op": "Has", "o": 1, "k": cs[i]["k"], "via": []string{"bytes", "string", "again"}[r.Intn(3)]})
					}
					one(core.M{"cap": cp, "fp": []int{1, 30, 500}[r.Intn(3)]}, cs)
				}
			},
		})
	})
	o.Close()
}

// TestF03 fills filters to their capacity and counts the false positives.
func TestF03(t *testing.T) {
	o := core.Open()
	synctest.Test(t, func(*testing.T) {
		r := core.Rng(23)
		caps := []uint64{1, 2, 5, 10, 14, 27, 50, 54, 107, 300, 427, 854, 1000, 1709}
		if core.Thorough() {
			caps = append(caps, 3, 7, 20, 70, 213, 2136, 3418, 5000, 10000)
		}
		for _, fp := range []int{1, 10, 30, 100, 300, 500} {
			for _, cp := range caps {
				tr := &core.Trace{Cfg: core.M{"cap": int(cp), "fp": fp}}
				for _, kind := range []string{"bytes", "number", "cleared", "sequence", "high", "long", "prefixed"} {
					if (kind == "long" || kind == "prefixed") && cp > 107 {
						continue
					}
					clears := 0
					if kind == "cleared" { // used and cleared a number of times before
						clears = 1 + r.Intn(12)
					}
					c := core.M{"op": "Rate", "cap": int(cp), "fp": fp, "via": kind, "clears": clears, "asked": 0}
					res := core.Try(func() core.A {
						filters, per := 60, 500
						if cp > 500 {
							filters, per = 15, 2000
						}
						yes := 0
						for i := 0; i < filters; i++ {
							time.Sleep(time.Duration(1 + r.Intn(1e6)))
							f := bloom.New(cp, float64(fp)/1000)
							base := r.Uint64()
							for k := 0; k < clears; k++ {
								f.AddString(strconv.Itoa(k))
								f.Add(base - uint64(k))
								f.Clear()
							}
							element := func(j uint64, in bool) interface{} {
								switch kind {
								case "number":
									if !in {
										j += 1 << 32
									}
									return mix(base + j)
								case "sequence", "high":
									if !in {
										j += cp
									}
									if kind == "high" {
										return base ^ j<<40
									}
									return base + j
								case "long", "prefixed":
									if !in {
										j += cp
									}
									fill := strings.Repeat("x", 1500)
									if kind == "long" {
										return fmt.Sprintf("%d/%d/", base, j) + fill
									}
									return fill + fmt.Sprintf("%d/%d", base, j)
								}
								return fmt.Sprintf("%s-%d-%d", map[bool]string{true: "in", false: "out"}[in], base, j)
							}
							for j := uint64(0); j < cp; j++ {
								switch e := element(j, true).(type) {
								case uint64:
									f.Add(e)
								case string:
									f.AddString(e)
								}
							}
							for j := 0; j < per; j++ {
								switch e := element(uint64(j), false).(type) {
								case uint64:
									if f.Contains(e) {
										yes++
									}
								case string:
									if f.ContainsBytes([]byte(e)) {
										yes++
									}
								}
							}
						}
						c["asked"] = filters * per
						return core.A{"v", yes}
					})
					tr.Add(core.M{"c": c, "r": res, "o": core.M{"len": 1}})
				}
				o.Emit(tr)
			}
		}
	})
	o.Close()
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

type hashes struct {
	h    [2]*hash.Hash
	room [2][]byte
	seen string
}

var hashKeys = []string{"", "", "00", "6162"}

// content named by a key: hexadecimal, or "n:seed:place:value", a long one with one byte set apart
func content(k string) []byte {
	if !strings.Contains(k, ":") {
		b, _ := hex.DecodeString(k)
		return b
	}
	var n, seed, place, value int
	fmt.Sscanf(k, "%d:%d:%d:%d", &n, &seed, &place, &value)
	b := make([]byte, n)
	rand.New(rand.NewSource(int64(seed))).Read(b)
	b[place] ^= byte(value)
	return b
}

func long(n, seed, place, value int) string {
	if value == 0 {
		place = 0
	}
	return fmt.Sprintf("%d:%d:%d:%d", n, seed, place, value)
}

func (x *hashes) Do(c core.M) core.A {
	o := core.I(c, "o") - 1
	h := x.h[o]
	k, ok := c["k"].(string)
	if !ok {
		k = hashKeys[core.I(c, "k")]
	}
	b := content(k)
	var buf []byte
	if c["via"] == "again" { // in the memory of the last content
		if cap(x.room[o]) < len(b)+8 {
			x.room[o] = make([]byte, 0, 2*len(b)+64)
		}
		buf = append(x.room[o][:0], b...)
		buf = append(buf, make([]byte, 8)...)[: len(b) : len(b)+8]
	} else {
		buf = append(make([]byte, 0, len(b)+8), b...)
	}
	var v uint64
	if c["via"] == "string" {
		v = h.Sum64String(string(b))
	} else {
		v = h.Sum64(buf)
	}
	x.seen = k
	if string(buf) != string(b) {
		x.seen = "the input was written"
	}
	for _, y := range buf[len(buf):cap(buf)] {
		if y != 0 {
			x.seen = "memory behind the input was written"
		}
	}
	return core.A{"v", strconv.FormatUint(v, 10)}
}

func (x *hashes) Obs() interface{} { return x.seen }

func TestF02(t *testing.T) {
	o := core.Open()
	walks := core.Walks()
	for _, w := range walks {
		for _, c := range w {
			c["k"] = hashKeys[core.I(c, "k")]
		}
	}
	core.Run(o, core.Opts{
		New:  func(core.M) core.Obj { return &hashes{h: [2]*hash.Hash{hash.New(), hash.New()}} },
		Salt: 22, N: 60, Len: 300,
		Extra: func(one func(core.M, []core.M)) {
			for _, w := range walks {
				one(core.M{}, w)
			}
			// families: every length, every single-bit difference, rotations
			via := func(i int) string { return []string{"bytes", "string", "again"}[i%3] }
			for _, n := range []int{64, 65, 129, 1000, 5000, 70001} { // neighbours of a long content
				for pass := 0; pass < 2; pass++ {
					var cs []core.M
					for i, p := range []int{0, 1, n / 3, n / 2, n - 2, n - 1} {
						for j, v := range []int{0, 1, 128} {
							w := "again"
							if pass > 0 {
								w = via(i + j)
							}
							cs = append(cs, core.M{"op": "Sum", "o": 1, "k": long(n, 7, p, v), "via": w},
								core.M{"op": "Sum", "o": 1, "k": long(n+pass, 8+j, p, v), "via": w})
						}
					}
					one(core.M{}, cs)
				}
			}
			for _, base := range []int{1, 8, 33, 130} {
				var cs []core.M
				b := make([]byte, base)
				for i := range b {
					b[i] = byte(i * 7)
				}
				for n := 0; n <= base; n++ {
					cs = append(cs, core.M{"op": "Sum", "o": 1, "k": hex.EncodeToString(b[:n]), "via": via(n)})
				}
				for i := 0; i < base*8 && i < 300; i++ {
					d := append([]byte{}, b...)
					d[i/8] ^= 1 << (i % 8)
					cs = append(cs, core.M{"op": "Sum", "o": 1, "k": hex.EncodeToString(d), "via": via(i)})
				}
				for n := 1; n < 40; n++ {
					cs = append(cs, core.M{"op": "Sum", "o": 1, "k": hex.EncodeToString(make([]byte, n+base)), "via": via(n)})
				}
				cs = append(cs, cs[:len(cs)/2]...)
				one(core.M{}, cs)
			}
		},
		Rand: func(r *rand.Rand) (core.M, func(*rand.Rand, core.Obj) core.M) {
			var ks []string
			return core.M{}, func(r *rand.Rand, _ core.Obj) core.M {
				var k string
				if len(ks) > 0 && r.Intn(2) == 0 {
					k = ks[r.Intn(len(ks))]
				} else {
					var b []byte
					if len(ks) > 0 && r.Intn(2) == 0 {
						b, _ = hex.DecodeString(ks[r.Intn(len(ks))])
						switch r.Intn(3) {
						case 0:
							b = append(b, byte(r.Intn(2)))
						case 1:
							b = append([]byte{byte(r.Intn(2))}, b...)
						case 2:
							r.Shuffle(len(b), func(i, j int) { b[i], b[j] = b[j], b[i] })
						}
					} else {
						b = make([]byte, []int{3, 20, 200, 2000}[r.Intn(4)])
						b = b[:r.Intn(len(b)+1)]
						r.Read(b)
					}
					k = hex.EncodeToString(b)
					ks = append(ks, k)
				}
				return core.M{"op": "Sum", "o": 1 + r.Intn(2), "k": k, "via": []string{"bytes", "string", "again"}[r.Intn(3)]}
			}
		},
	})
	o.Close()
}
