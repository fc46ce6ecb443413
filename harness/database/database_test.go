package database

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"testing"
	"testing/synctest"
	"time"

	"gorm.io/gorm"
	"gorm.io/gorm/logger"

	"github.com/ahKevinXy/go-web-tools/gorm_tools"
	"github.com/ahKevinXy/go-web-tools/zzverif/core"
)

// tab is one table of a database and the connection to it
type tab struct {
	f     *fake
	db    *gorm.DB
	tx    *gorm.DB
	name  string
	cols  []string
	other []row
	sts   core.A
	hit   bool
	call  core.M
}

func strs(x interface{}) []string {
	switch v := x.(type) {
	case []string:
		return v
	case []interface{}:
		out := make([]string, len(v))
		for i := range v {
			out[i] = v[i].(string)
		}
		return out
	}
	panic(core.Bug(fmt.Sprintf("%T %v", x, x)))
}

func list(x interface{}) []interface{} {
	switch v := x.(type) {
	case nil:
		return nil
	case []interface{}:
		return v
	case [][]string:
		out := make([]interface{}, len(v))
		for i := range v {
			out[i] = v[i]
		}
		return out
	}
	panic(core.Bug(fmt.Sprintf("%T %v", x, x)))
}

// val is the Go value of a written-down one
func val(s string) interface{} {
	if s == null {
		return nil
	}
	if n, err := strconv.ParseInt(s, 10, 64); err == nil {
		return n
	}
	if s == "true" || s == "false" {
		return s == "true"
	}
	return s
}

func (x *tab) fields(rec []string) map[string]interface{} {
	m := map[string]interface{}{}
	for i, v := range rec {
		if v != "-" {
			m[x.cols[i]] = val(v)
		}
	}
	return m
}

type typed struct {
	Id int64       `json:"id,string"`
	A  interface{} `json:"a,omitempty"`
	B  interface{} `json:"b,omitempty"`
	C  interface{} `json:"c,omitempty"`
}

type model struct {
	Id int64
	A  *string
	B  *string
	C  *string
}

// record builds what the caller hands over: a struct where one can express it, else a map
func (x *tab) record(rec []string, asStruct bool) interface{} {
	if asStruct && len(x.cols) == 4 && x.cols[3] == "c" && rec[0] != "-" && rec[0] != null && rec[1] != null && rec[2] != null && rec[3] != null {
		m := x.fields(rec)
		t := typed{Id: m["id"].(int64), A: m["a"], B: m["b"], C: m["c"]}
		if rec[1] == "-" {
			return t
		}
		return &t
	}
	return x.fields(rec)
}

func (x *tab) handle() *gorm.DB {
	if x.tx != nil {
		return x.tx
	}
	return x.db
}

func (x *tab) Do(c core.M) core.A {
	x.call = c
	x.f.log, x.f.faults, x.f.begins, x.f.ends = nil, nil, "", ""
	x.sts, x.hit = core.A{}, false
	kind := ""
	if fl := list(anyList(c["fault"])); len(fl) == 2 {
		kind = fl[0].(string)
		k, err := strconv.Atoi(kind)
		switch {
		case err == nil:
			x.f.faults = map[int]string{k: fl[1].(string)}
		case kind == "begin":
			x.f.begins = "fail"
		case kind == "commit":
			x.f.ends = "fail"
		}
	}
	err := x.run(c)
	for _, s := range x.f.log {
		hit := core.A{}
		for _, h := range s.hit {
			hit = append(hit, h)
		}
		x.sts = append(x.sts, core.M{"n": s.n, "rows": s.rows, "out": s.out, "hit": hit})
		if s.out != "ok" {
			x.hit = true
		}
	}
	if kind == "begin" && x.f.begins == "" || kind == "commit" && x.f.ends == "" {
		x.hit = true
	}
	if err == nil {
		return core.A{"ok"}
	}
	if dupText(err.Error()) {
		return core.A{"dup"}
	}
	return core.A{"err"}
}

func anyList(x interface{}) interface{} {
	if s, ok := x.([]string); ok {
		out := make([]interface{}, len(s))
		for i := range s {
			out[i] = s[i]
		}
		return out
	}
	return x
}

func (x *tab) run(c core.M) error {
	db := x.handle()
	switch c["op"].(string) {
	case "Begin":
		tx := x.db.Begin()
		if tx.Error == nil {
			x.tx = tx
		}
		return tx.Error
	case "Commit":
		err := x.tx.Commit().Error
		x.tx = nil
		return err
	case "Rollback":
		err := x.tx.Rollback().Error
		x.tx = nil
		return err
	case "Split", "Batch":
		recs := []interface{}{}
		bad := core.I2(c, "bad", 0)
		for i, r := range list(c["recs"]) {
			if i+1 == bad {
				recs = append(recs, []interface{}{7, func() {}, []int{1}}[i%3])
				continue
			}
			recs = append(recs, x.record(strs(r), c["typed"] == true))
		}
		if c["op"] == "Split" {
			return gorm_tools.SplitInsertTableRecords(db, x.name, recs...)
		}
		return gorm_tools.BatchInsertTableRecords(db, x.name, recs...)
	case "SplitUpdate", "BatchUpdate":
		m := map[int64]map[string]interface{}{}
		for _, u := range list(c["ups"]) {
			p := list(u)
			id, err := strconv.ParseInt(p[0].(string), 10, 64)
			if err != nil {
				panic(core.Bug("id"))
			}
			m[id] = x.fields(strs(p[1]))
			if len(m[id]) == 0 && id%2 == 0 {
				m[id] = nil
			}
		}
		if c["op"] == "SplitUpdate" {
			return gorm_tools.SplitUpdateTableFieldWithoutVersionByID(db, x.name, m)
		}
		return gorm_tools.BatchUpdateTableFieldWithoutVersionByID(db, x.name, m)
	case "Insert":
		rs := list(c["recs"])
		switch {
		case c["typed"] == true && len(rs) == 1:
			return gorm_tools.InsertToTable(x.name, x.model(strs(rs[0])), db)
		case c["typed"] == true:
			ms := []model{}
			for _, r := range rs {
				ms = append(ms, *x.model(strs(r)))
			}
			return gorm_tools.InsertToTable(x.name, &ms, db)
		case len(rs) == 1:
			return gorm_tools.InsertToTable(x.name, x.fields(strs(rs[0])), db)
		}
		ms := []map[string]interface{}{}
		for _, r := range rs {
			ms = append(ms, x.fields(strs(r)))
		}
		return gorm_tools.InsertToTable(x.name, ms, db)
	case "Delete":
		return gorm_tools.DelByTableNameAndId(x.name, ids(c), db)
	case "Update":
		return gorm_tools.UpdateByTableNameAndId(x.name, id(c["id"].(string)), x.fields(strs(c["vals"])), db)
	case "UpdateIds":
		return gorm_tools.UpdateByTableNameAndIds(x.name, ids(c), x.fields(strs(c["vals"])), db)
	case "UpdateWhere":
		w := map[string]interface{}{}
		for _, p := range list(c["where"]) {
			q := list(p)
			vs := strs(anyList(q[1]))
			col := x.cols[int(num(q[0]))-1]
			if len(vs) == 1 {
				w[col] = val(vs[0])
			} else {
				in := []interface{}{}
				for _, v := range vs {
					in = append(in, val(v))
				}
				w[col] = in
			}
		}
		return gorm_tools.UpdateByTableNameAndWhere(x.name, w, x.fields(strs(c["vals"])), db)
	case "SoftDel":
		time.Sleep(time.Duration(core.I2(c, "pause", 0)) * time.Millisecond)
		c["now"] = strconv.FormatInt(time.Now().Unix(), 10)
		return gorm_tools.SoftDelByTableNameAndId(x.name, id(c["id"].(string)), db)
	}
	panic(core.Bug("op"))
}

func num(x interface{}) float64 {
	switch v := x.(type) {
	case int:
		return float64(v)
	case float64:
		return v
	}
	panic(core.Bug("number"))
}

func (x *tab) model(rec []string) *model {
	p := func(s string) *string {
		if s == "-" || s == null {
			return nil
		}
		return &s
	}
	return &model{Id: id(rec[0]), A: p(rec[1]), B: p(rec[2]), C: p(rec[3])}
}

func id(s string) int64 {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		panic(core.Bug("id " + s))
	}
	return n
}

func ids(c core.M) []int64 {
	var out []int64
	for _, s := range strs(c["ids"]) {
		out = append(out, id(s))
	}
	return out
}

func (x *tab) rowsOf() core.A {
	out := core.A{}
	known := map[string]bool{}
	for _, c := range x.cols {
		known[c] = true
	}
	for _, r := range x.f.tables[x.name] {
		vs := make([]string, len(x.cols))
		for i, c := range x.cols {
			vs[i] = get(r, c)
		}
		var extra []string
		for c := range r {
			if !known[c] {
				extra = append(extra, c)
			}
		}
		sort.Strings(extra)
		for _, c := range extra {
			vs = append(vs, c+"="+r[c])
		}
		out = append(out, vs)
	}
	return out
}

func (x *tab) Obs() interface{} { return x.rowsOf() }

// More adds what happened at the database to the event.
func (x *tab) More(e core.M) {
	rest := len(x.f.tables) == 2 && reflect.DeepEqual(x.f.tables["other"], x.other) && x.f.inTx == (x.tx != nil)
	e["sts"], e["hit"], e["rest"] = x.sts, x.hit, rest
}

func (x *tab) Close() {
	if x.tx != nil {
		x.tx.Rollback()
	}
}

func newTab(cfg core.M) core.Obj {
	x := &tab{name: "t", cols: strs(anyList(cfg["cols"])), f: &fake{tables: map[string][]row{}}}
	if n, ok := cfg["table"].(string); ok {
		x.name = n
	}
	rs := []row{}
	for _, v := range list(cfg["rows"]) {
		r := row{}
		for i, s := range strs(v) {
			if s != null {
				r[x.cols[i]] = s
			}
		}
		rs = append(rs, r)
	}
	x.f.tables[x.name] = rs
	x.other = []row{{"id": "1", "a": "5"}, {"id": "2"}}
	x.f.tables["other"] = clone(map[string][]row{"o": x.other})["o"]
	db, err := gorm.Open(dialect{}, &gorm.Config{ConnPool: x.f, Logger: logger.Discard,
		SkipDefaultTransaction: cfg["plain"] == true, DisableAutomaticPing: true})
	if err != nil {
		panic(core.Bug(err.Error()))
	}
	x.db = db
	return x
}

func pick(r *rand.Rand, xs ...string) string { return xs[r.Intn(len(xs))] }

func value(r *rand.Rand) string {
	return pick(r, "5", "-7", "0", "9007199254740993", "1680000000", "x", "a b", "it's ?", "名", "true", "false", null, "5")
}

var cols4 = []string{"id", "a", "b", "c"}
var cols6 = []string{"id", "a", "b", "created_at", "updated_at", "deleted_at"}

func randRows(r *rand.Rand, n, cols int) [][]string {
	out := [][]string{}
	for i := 0; i < n; i++ {
		out = append(out, randRow(r, strconv.Itoa(i+1), cols))
	}
	return out
}

// naming: the id of the i-th row, plain or of any size and sign
func naming(r *rand.Rand) func(int) string {
	if r.Intn(2) == 0 {
		return func(i int) string { return strconv.Itoa(i + 1) }
	}
	odd := []string{"0", "-1", "9223372036854775807", "-9223372036854775808", "4294967297", "1", "11", "-10", "2147483648"}
	r.Shuffle(len(odd), func(i, j int) { odd[i], odd[j] = odd[j], odd[i] })
	return func(i int) string {
		if i < len(odd) {
			return odd[i]
		}
		return strconv.Itoa(1000 + i)
	}
}

func named(r *rand.Rand, n, cols int, name func(int) string) [][]string {
	out := randRows(r, n, cols)
	for i := range out {
		out[i][0] = name(i)
	}
	return out
}

func randRow(r *rand.Rand, id string, cols int) []string {
	v := []string{id}
	for j := 1; j < cols; j++ {
		v = append(v, value(r))
	}
	return v
}

// some of the fields, each with probability p/10
func some(r *rand.Rand, rec []string, p int) []string {
	out := append([]string{}, rec...)
	for j := 1; j < len(out); j++ {
		if r.Intn(10) >= p {
			out[j] = "-"
		}
	}
	return out
}

func txop(r *rand.Rand, x *tab) core.M {
	if x.tx == nil {
		return core.M{"op": "Begin"}
	}
	return core.M{"op": pick(r, "Commit", "Rollback")}
}

func fault(r *rand.Rand, upto int, kinds ...string) []string {
	if r.Intn(4) > 0 {
		return []string{}
	}
	return []string{strconv.Itoa(1 + r.Intn(upto)), pick(r, kinds...)}
}

func TestD01(t *testing.T) {
	o := core.Open()
	synctest.Test(t, func(*testing.T) {
		core.Run(o, core.Opts{
			New:  newTab,
			Cfgs: []core.M{{"cols": []string{"id", "a"}, "rows": core.A{}, "plain": true}},
			Salt: 51, N: 300, Len: 14,
			Rand: func(r *rand.Rand) (core.M, func(*rand.Rand, core.Obj) core.M) {
				cfg := core.M{"cols": cols4, "rows": randRows(r, r.Intn(4), 4), "plain": r.Intn(2) == 0,
					"table": pick(r, "t", "order_items")}
				next := 10
				p := r.Intn(11)
				return cfg, func(r *rand.Rand, ob core.Obj) core.M {
					x := ob.(*tab)
					if r.Intn(8) == 0 {
						return txop(r, x)
					}
					recs := [][]string{}
					typed := r.Intn(3) == 0
					for n := r.Intn(6); n > 0; n-- {
						next++
						rec := some(r, randRow(r, strconv.Itoa(next), 4), p)
						if typed {
							for j := range rec {
								if rec[j] == null {
									rec[j] = "x"
								}
							}
						}
						if !typed && r.Intn(12) == 0 {
							rec[0] = "-"
						}
						recs = append(recs, rec)
					}
					if len(recs) > 0 && allAbsent(recs) {
						recs[0][0] = strconv.Itoa(next)
					}
					c := core.M{"op": pick(r, "Split", "Batch"), "recs": recs, "typed": typed,
						"fault": fault(r, 1, "fail", "dup", "zero")}
					if len(recs) > 0 && r.Intn(15) == 0 {
						c["bad"] = 1 + r.Intn(len(recs))
						c["fault"] = []string{}
					}
					return c
				}
			},
			Extra: func(one func(cfg core.M, calls []core.M)) { bigInserts(one) },
		})
	})
	o.Close()
}

func allAbsent(recs [][]string) bool {
	for _, r := range recs {
		for _, v := range r {
			if v != "-" {
				return false
			}
		}
	}
	return true
}

// bigInserts: as many records as split into several statements
func bigInserts(one func(cfg core.M, calls []core.M)) {
	if core.N(300) == 0 {
		return
	}
	r := core.Rng(52)
	run := func(width, n, p int, fault []string, bad int) {
		cols := []string{"id"}
		for j := 1; j < width; j++ {
			cols = append(cols, "c"+strconv.Itoa(j))
		}
		recs := [][]string{}
		for i := 0; i < n; i++ {
			rec := []string{strconv.Itoa(i + 1)}
			for j := 1; j < width; j++ {
				switch {
				case p == 10 || r.Intn(10) < p:
					rec = append(rec, strconv.Itoa(i*7+j))
				default:
					rec = append(rec, "-")
				}
			}
			recs = append(recs, rec)
		}
		if p < 0 {
			// the first record is narrow, the others are wide
			for j := 1; j < width; j++ {
				for i := 1; i < n; i++ {
					recs[i][j] = strconv.Itoa(i + j)
				}
			}
		}
		c := core.M{"op": "Split", "recs": recs, "fault": fault}
		if bad > 0 {
			c["bad"] = bad
		}
		one(core.M{"cols": cols, "rows": core.A{}, "plain": true}, []core.M{c})
	}
	none := []string{}
	per := 65000 / 13000
	for _, n := range []int{per - 1, per, per + 1, 2*per + 1} {
		run(13000, n, 10, none, 0)
	}
	run(13000, 3*per, 10, []string{"2", "fail"}, 0)
	run(13000, 3*per-1, 10, []string{"3", "dup"}, 0)
	run(13000, 2*per, 10, []string{"1", "dup"}, 0)
	run(13000, 2*per+2, 10, []string{"2", "zero"}, 0)
	run(13000, 2*per+2, 10, none, per+2)
	run(12000, 12, -1, none, 0)
	run(5000, 20, 7, none, 0)
	run(40000, 3, 5, none, 0)
	run(65000, 2, 10, none, 0)
	run(65001, 2, 10, none, 0)
	run(65001, 2, -1, none, 0)
	run(30, 2200, 9, none, 0)
	if core.Thorough() {
		run(3, 43400, 10, none, 0)
		run(3, 21666, 10, none, 0)
		run(3, 21667, 6, []string{"2", "fail"}, 0)
		run(1, 65001, 10, none, 0)
		for k := 0; k < 12; k++ {
			w := 3000 + r.Intn(20000)
			run(w, 1+r.Intn(1+260000/w), []int{10, 10, 9, 5, -1}[r.Intn(5)], []string{strconv.Itoa(1 + r.Intn(4)), pick(r, "fail", "dup", "zero")}, 0)
		}
	}
}

func upd(r *rand.Rand, ids []string, cols, p int, consistent bool) core.A {
	fields := some(r, randRow(r, "-", cols), p)
	out := core.A{}
	for _, i := range ids {
		v := randRow(r, "-", cols)
		for j := range v {
			if fields[j] == "-" {
				v[j] = "-"
			}
		}
		out = append(out, core.A{i, v})
	}
	if !consistent && len(out) > 0 {
		k := r.Intn(len(out))
		v := out[k].([]interface{})[1].([]string)
		j := 1 + r.Intn(cols-1)
		if v[j] == "-" {
			v[j] = "5"
		} else {
			v[j] = "-"
		}
	}
	return out
}

func TestD02(t *testing.T) {
	o := core.Open()
	synctest.Test(t, func(*testing.T) {
		core.Run(o, core.Opts{
			New:  newTab,
			Cfgs: []core.M{{"cols": []string{"id", "a", "b"}, "rows": [][]string{{"1", "5", "~"}, {"2", "x", "7"}}, "plain": true}},
			Salt: 53, N: 300, Len: 14,
			Rand: func(r *rand.Rand) (core.M, func(*rand.Rand, core.Obj) core.M) {
				n := r.Intn(9)
				name := naming(r)
				cfg := core.M{"cols": cols4, "rows": named(r, n, 4, name), "plain": r.Intn(2) == 0,
					"table": pick(r, "t", "order_items")}
				p := r.Intn(11)
				return cfg, func(r *rand.Rand, ob core.Obj) core.M {
					x := ob.(*tab)
					if r.Intn(8) == 0 {
						return txop(r, x)
					}
					which := []string{}
					for _, i := range r.Perm(n + 2) {
						if r.Intn(3) > 0 {
							which = append(which, name(i))
						}
					}
					return core.M{"op": pick(r, "SplitUpdate", "BatchUpdate"), "ups": upd(r, which, 4, p, r.Intn(4) > 0),
						"fault": fault(r, 1, "fail", "fail", "dup")}
				}
			},
			Extra: func(one func(cfg core.M, calls []core.M)) { bigUpdates(one) },
		})
	})
	o.Close()
}

func bigUpdates(one func(cfg core.M, calls []core.M)) {
	if core.N(300) == 0 {
		return
	}
	r := core.Rng(54)
	run := func(size, m int, op string, consistent bool, fault []string) {
		rows := randRows(r, size, 3)
		which := []string{}
		for _, i := range r.Perm(size)[:m] {
			which = append(which, strconv.Itoa(i+1))
		}
		c := core.M{"op": op, "ups": upd(r, which, 3, 9, consistent), "fault": fault}
		one(core.M{"cols": []string{"id", "a", "b"}, "rows": rows, "plain": true}, []core.M{c})
	}
	none := []string{}
	for _, m := range []int{499, 500, 501} {
		run(600, m, "SplitUpdate", true, none)
	}
	run(1000, 1000, "SplitUpdate", true, none)
	run(1001, 1001, "SplitUpdate", true, none)
	run(520, 510, "BatchUpdate", true, none)
	run(1600, 1300, "SplitUpdate", true, []string{"2", "fail"})
	run(1100, 1050, "SplitUpdate", true, []string{"3", "fail"})
	run(700, 700, "SplitUpdate", true, []string{"1", "dup"})
	for k := 0; k < 4; k++ {
		run(501, 501, "SplitUpdate", false, none)
	}
	if core.Thorough() {
		for k := 0; k < 30; k++ {
			m := 400 + r.Intn(1700)
			run(m+r.Intn(50), m, pick(r, "SplitUpdate", "SplitUpdate", "BatchUpdate"), r.Intn(4) > 0, fault(r, 5, "fail", "dup"))
		}
	}
}

func TestD03(t *testing.T) {
	o := core.Open()
	synctest.Test(t, func(*testing.T) {
		core.Run(o, core.Opts{
			New: newTab,
			Cfgs: []core.M{{"cols": []string{"id", "a", "updated_at", "deleted_at"}, "plain": true,
				"rows": [][]string{{"1", "5", "1", "0"}}}},
			Salt: 55, N: 400, Len: 25,
			Rand: func(r *rand.Rand) (core.M, func(*rand.Rand, core.Obj) core.M) {
				n := r.Intn(8)
				name := naming(r)
				cols := [][]string{cols4, cols6}[r.Intn(2)]
				cfg := core.M{"cols": cols, "rows": named(r, n, len(cols), name), "plain": r.Intn(2) == 0,
					"table": pick(r, "t", "order_items")}
				next := 20
				time.Sleep(time.Duration(r.Intn(1 << 40)))
				return cfg, func(r *rand.Rand, ob core.Obj) core.M {
					x := ob.(*tab)
					if r.Intn(9) == 0 {
						return txop(r, x)
					}
					w := len(cols)
					anId := func() string { return name(r.Intn(n + 3)) }
					vals := func() []string {
						v := some(r, randRow(r, "-", w), r.Intn(11))
						return v
					}
					idl := []string{}
					for k := r.Intn(7); k > 0; k-- {
						idl = append(idl, anId())
					}
					flt := []string{}
					if x.tx == nil && cfg["plain"] != true && r.Intn(8) == 0 {
						flt = []string{pick(r, "begin", "commit"), "fail"}
					} else {
						flt = fault(r, 1, "fail", "dup")
						if r.Intn(2) == 0 {
							flt = []string{}
						}
					}
					c := core.M{"fault": flt}
					switch r.Intn(6) {
					case 0:
						c["op"], c["ids"] = "Delete", idl
					case 1:
						c["op"], c["id"], c["vals"] = "Update", anId(), vals()
					case 2:
						c["op"], c["ids"], c["vals"] = "UpdateIds", idl, vals()
					case 3:
						where := core.A{}
						for j := range cols {
							if r.Intn(w) == 0 || r.Intn(3) == 0 && j == 1 {
								vs := []string{}
								for k := []int{0, 1, 1, 1, 2, 3}[r.Intn(6)]; k > 0; k-- {
									v := value(r)
									if len(x.f.tables[x.name]) > 0 && r.Intn(3) > 0 {
										v = get(x.f.tables[x.name][r.Intn(len(x.f.tables[x.name]))], cols[j])
									}
									vs = append(vs, v)
								}
								if len(vs) > 1 {
									for i := range vs {
										if vs[i] == null {
											vs[i] = "x"
										}
									}
								}
								where = append(where, core.A{j + 1, vs})
							}
						}
						c["op"], c["where"], c["vals"] = "UpdateWhere", where, vals()
					case 4:
						if w == 6 {
							c["op"], c["id"], c["pause"] = "SoftDel", anId(), r.Intn(3000)
							c["updated"], c["deleted"] = 5, 6
							break
						}
						fallthrough
					case 5:
						recs := [][]string{}
						typed := w == 4 && r.Intn(2) == 0
						for k := 1 + r.Intn(3); k > 0; k-- {
							next++
							rec := some(r, randRow(r, strconv.Itoa(next), w), 7)
							recs = append(recs, rec)
						}
						c["op"], c["recs"], c["typed"] = "Insert", recs, typed
					}
					return c
				}
			},
			Extra: func(one func(cfg core.M, calls []core.M)) { bigLists(one) },
		})
	})
	o.Close()
}

// bigLists: many rows named at once
func bigLists(one func(cfg core.M, calls []core.M)) {
	r := core.Rng(56)
	cols := []string{"id", "a", "b"}
	sizes := []int{30, 300, 1200}
	if core.Thorough() {
		sizes = append(sizes, 11, 12, 101, 501, 1001, 2500, 3000)
	}
	for _, n := range sizes {
		var cs []core.M
		ids := func() []string {
			l := []string{}
			for _, i := range r.Perm(n + 5)[:n-r.Intn(n/4)] {
				l = append(l, strconv.Itoa(i+1))
			}
			if r.Intn(2) == 0 {
				sort.Slice(l, func(i, j int) bool { return len(l[i]) < len(l[j]) || len(l[i]) == len(l[j]) && l[i] < l[j] })
			}
			return l
		}
		none := []string{}
		cs = append(cs, core.M{"op": "UpdateIds", "ids": ids(), "vals": []string{"-", "7", "-"}, "fault": none},
			core.M{"op": "UpdateWhere", "where": core.A{core.A{1, ids()}}, "vals": []string{"-", "-", "8"}, "fault": none},
			core.M{"op": "UpdateIds", "ids": ids(), "vals": []string{"-", "-", "9"}, "fault": []string{"1", "fail"}},
			core.M{"op": "Delete", "ids": ids()[:n/2], "fault": none})
		one(core.M{"cols": cols, "rows": randRows(r, n, 3), "plain": true}, cs)
	}
}
