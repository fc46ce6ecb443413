package texts

import (
	"math/rand"
	"testing"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/core"
)

type randObj struct{}

func (randObj) Obs() interface{} { return nil }

func (randObj) Do(c core.M) core.A {
	n, k := core.I(c, "n"), core.I(c, "kind")
	if c["op"] == "Rand" {
		return core.A{"v", ints([]byte(utils.RandStr(n, k)))}
	}
	seen := make([][256]bool, n)
	for i := 0; i < core.I(c, "m"); i++ {
		s := utils.RandStr(n, k)
		if len(s) != n {
			return core.A{"length"}
		}
		for j := 0; j < n; j++ {
			seen[j][s[j]] = true
		}
	}
	sets := core.A{}
	for j := range seen {
		q := core.A{}
		for x, y := range seen[j] {
			if y {
				q = append(q, x)
			}
		}
		sets = append(sets, q)
	}
	return core.A{"sets", sets}
}

func TestU07(t *testing.T) {
	o := core.Open()
	kinds := []int{0, 1, 2, 3, 4, -1, 100, -1 << 31, 1<<31 - 1}
	core.Run(o, core.Opts{
		New: func(core.M) core.Obj { return randObj{} }, Cfgs: []core.M{{}}, Salt: 87, N: 60, Len: 60,
		Extra: func(one func(core.M, []core.M)) {
			for _, k := range kinds {
				var calls []core.M
				for n := 0; n <= 70; n++ {
					calls = append(calls, core.M{"op": "Rand", "kind": k, "n": n})
				}
				calls = append(calls, core.M{"op": "Rand", "kind": k, "n": 1000})
				one(core.M{}, calls)
				calls = nil
				for _, n := range []int{1, 2, 9} {
					calls = append(calls, core.M{"op": "Many", "kind": k, "n": n, "m": 5000})
				}
				one(core.M{}, calls)
			}
		},
		Rand: func(r *rand.Rand) (core.M, func(*rand.Rand, core.Obj) core.M) {
			return core.M{}, func(r *rand.Rand, _ core.Obj) core.M {
				return core.M{"op": "Rand", "kind": kinds[r.Intn(len(kinds))], "n": r.Intn(1 << uint(r.Intn(9)))}
			}
		},
	})
	o.Close()
}
