package conc

import (
	"fmt"
	"math/rand"
	"testing"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/core"
	"github.com/ahKevinXy/go-web-tools/zzverif/vsched"
)

type structKey struct{ a, b int }

// names of keys that look alike but differ
var mapKeys = map[string]interface{}{"int1": 1, "str1": "1", "i641": int64(1), "st12": structKey{1, 2}, "nil": nil, "strx": "x"}
var keyNames = func() map[interface{}]string {
	m := map[interface{}]string{}
	for n, k := range mapKeys {
		m[k] = n
	}
	return m
}()
var keyList = []string{"int1", "str1", "i641", "st12", "nil", "strx"}

// a stored value stands for a number, or for nil (-1); some are of types that
// cannot be compared
func wrap(n int) interface{} {
	switch {
	case n == -1:
		return nil
	case n%300 == 0:
		return []int{n}
	case n%400 == 0:
		return map[int]int{0: n}
	}
	return n
}

func num(v interface{}) int {
	switch v := v.(type) {
	case nil:
		return -1
	case []int:
		return v[0]
	case map[int]int:
		return v[0]
	}
	return v.(int)
}

func val(v interface{}) core.A {
	if v == nil {
		return core.A{"nil"}
	}
	return core.A{"v", num(v)}
}

func mapOp(m *utils.Map, c core.M) core.A {
	var k interface{}
	if n, ok := c["k"].(string); ok {
		k = mapKeys[n]
	}
	seen := core.A{}
	see := func(k, v interface{}) {
		vsched.Point()
		seen = append(seen, core.A{keyNames[k], num(v)})
	}
	locked := func(f func()) {
		m.Lock()
		defer m.Unlock()
		f()
	}
	switch core.S(c, "op") {
	case "Get":
		return val(m.Get(k))
	case "Set":
		m.Set(k, wrap(core.I(c, "v")))
	case "TestAndSet":
		return val(m.TestAndSet(k, wrap(core.I(c, "v"))))
	case "Del":
		m.Del(k)
	case "Len":
		return core.A{"n", m.Len()}
	case "RLockRange":
		m.RLockRange(see)
		return core.A{"ps", seen}
	case "LockRange":
		m.LockRange(see)
		return core.A{"ps", seen}
	case "Raise":
		m.LockRange(func(k, v interface{}) {
			see(k, v)
			if v != nil {
				m.UnsafeSet(k, num(v)+1)
			}
		})
		return core.A{"ps", seen}
	case "Drain":
		m.LockRange(func(k, v interface{}) { see(k, v); m.UnsafeDel(k) })
		return core.A{"ps", seen}
	case "RLockRangePanic":
		m.RLockRange(func(interface{}, interface{}) { panic("visitor") })
		return core.A{"ps", seen}
	case "LockRangePanic":
		m.LockRange(func(interface{}, interface{}) { panic("visitor") })
		return core.A{"ps", seen}
	case "SetBadKey":
		m.Set([]int{1}, 1)
	case "TestAndSetBadKey":
		m.TestAndSet([]int{1}, 1)
	case "Incr":
		var r core.A
		locked(func() {
			v := m.UnsafeGet(k)
			r = val(v)
			n := 0
			if v != nil {
				n = num(v)
			}
			m.UnsafeSet(k, n+1)
		})
		return r
	case "UGet":
		var r core.A
		locked(func() { r = val(m.UnsafeGet(k)) })
		return r
	case "USet":
		locked(func() { m.UnsafeSet(k, wrap(core.I(c, "v"))) })
	case "UDel":
		locked(func() { m.UnsafeDel(k) })
	case "ULen":
		n := 0
		locked(func() { n = m.UnsafeLen() })
		return core.A{"n", n}
	case "URange":
		locked(func() { m.UnsafeRange(see) })
		return core.A{"ps", seen}
	}
	return core.A{}
}

var mapOps = []struct {
	op string
	w  int
}{{"Get", 4}, {"Set", 4}, {"TestAndSet", 8}, {"Del", 5}, {"Len", 3}, {"RLockRange", 2}, {"LockRange", 2}, {"Raise", 2}, {"Drain", 1},
	{"RLockRangePanic", 1}, {"LockRangePanic", 1}, {"SetBadKey", 1}, {"TestAndSetBadKey", 1}, {"Incr", 3},
	{"UGet", 1}, {"USet", 1}, {"UDel", 1}, {"ULen", 1}, {"URange", 1}}

func randMapCall(r *rand.Rand, keys int, v *int) core.M {
	var ws []int
	for _, o := range mapOps {
		ws = append(ws, o.w)
	}
	c := core.M{"op": mapOps[core.Pick(r, ws)].op}
	switch c["op"] {
	case "Set", "TestAndSet", "USet":
		*v += 100
		c["v"] = *v
		if r.Intn(5) == 0 {
			c["v"] = -1
		}
		fallthrough
	case "Get", "Del", "Incr", "UGet", "UDel":
		c["k"] = keyList[r.Intn(keys)]
	}
	return c
}

func TestM01(t *testing.T) {
	o := core.Open()
	r := core.Rng(1010)
	for k := 0; k < core.N(200); k++ {
		controlled(t, o, r.Int63(), core.M{}, true, func(x *run) {
			m := &utils.Map{}
			keys, v := 1+x.r.Intn(len(keyList)), 0
			threads := []int{1, 2, 2, 3, 3, 4}[x.r.Intn(6)]
			for th := 1; th <= threads; th++ {
				th := th
				var l []core.M
				n := 1 + x.r.Intn(core.Len(6))
				if threads == 1 {
					n *= 5
				}
				for ; n > 0; n-- {
					l = append(l, randMapCall(x.r, keys, &v))
				}
				go func() {
					for _, c := range l {
						x.h.call(th, c, func() core.A { return mapOp(m, c) })
					}
				}()
			}
		})
	}
	fmt.Println("cut", cut)
	o.Close()
}
