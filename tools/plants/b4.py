M = "github.com/ahKevinXy/go-web-tools/common/"
UP = "github.com/ahKevinXy/go-web-tools/help/utils"
GP = "github.com/ahKevinXy/go-web-tools/gorm_tools"
C = "common/container/"
L = "common/limiter/"
T = "common/timer/"
H = "help/utils/"
DB = 'import ("context"; "database/sql"; "errors"; "fmt"; "strings"; "testing"; "time"; "gorm.io/gorm"; "gorm.io/gorm/callbacks"; "gorm.io/gorm/logger"; "gorm.io/gorm/utils/tests"; "github.com/ahKevinXy/go-web-tools/gorm_tools")\nvar _ = fmt.Sprint\nvar _ = strings.Count\nvar _ = time.Now\n\ntype pool struct { n int; fail string; sql []string; args [][]interface{} }\nfunc (p *pool) PrepareContext(context.Context, string) (*sql.Stmt, error) { return nil, errors.New("no") }\nfunc (p *pool) QueryContext(context.Context, string, ...interface{}) (*sql.Rows, error) { return nil, errors.New("no") }\nfunc (p *pool) QueryRowContext(context.Context, string, ...interface{}) *sql.Row { return nil }\ntype res int64\nfunc (res) LastInsertId() (int64, error) { return 0, nil }\nfunc (r res) RowsAffected() (int64, error) { return int64(r), nil }\nfunc (p *pool) ExecContext(_ context.Context, q string, a ...interface{}) (sql.Result, error) {\n\tp.sql, p.args = append(p.sql, q), append(p.args, a)\n\tif p.fail != "" { return nil, errors.New(p.fail) }\n\treturn res(1), nil\n}\ntype dia struct { tests.DummyDialector }\nfunc (dia) Initialize(db *gorm.DB) error {\n\tcallbacks.RegisterDefaultCallbacks(db, &callbacks.Config{CreateClauses: []string{"INSERT", "VALUES"}, UpdateClauses: []string{"UPDATE", "SET", "WHERE"}, DeleteClauses: []string{"DELETE", "FROM", "WHERE"}})\n\treturn nil\n}\nfunc open(p *pool) *gorm.DB {\n\tdb, err := gorm.Open(dia{}, &gorm.Config{ConnPool: p, Logger: logger.Discard, SkipDefaultTransaction: true})\n\tif err != nil { panic(err) }\n\treturn db\n}\n\n'

plant("leaky-empty-clock", "L02", [(L + "leaky_bucket/leaky_bucket_limiter.go", "	if interval >= time.Second {", "	if interval >= time.Second && l.currentLevel > 0 {")], f'''
import ("testing"; "testing/synctest"; "time"; "{M}limiter/leaky_bucket")
func TestDemo(t *testing.T) {{
	synctest.Test(t, func(t *testing.T) {{
		l := leaky_bucket.NewLeakyBucketLimiter(2, 1)
		time.Sleep(10 * time.Second)
		n := 0
		for i := 0; i < 9; i++ {{ if l.TryAcquire() {{ n++ }} }}
		if n != 2 {{ t.Fatal(n) }}
	}})
}}''', "a burst after the bucket stood empty for more than a second", "the empty time counts again as flow: more than the peak is admitted at one instant")

plant("token-exact-second", "L03", [(L + "token_bucket/token_bucket.go", "	if interval >= time.Second {", "	if interval > time.Second {")], f'''
import ("testing"; "testing/synctest"; "time"; "{M}limiter/token_bucket")
func TestDemo(t *testing.T) {{
	synctest.Test(t, func(t *testing.T) {{
		l := token_bucket.NewTokenBucketLimiter(2, 1)
		time.Sleep(time.Second)
		if !l.TryAcquire() {{ t.Fatal("no token after a second") }}
	}})
}}''', "an attempt exactly one second after the last issue", "the tokens due are not issued")

plant("sliding-log-tie-order", "L05", [(L + "sliding_log/sliding_log.go", "		if a.window == b.window {\n			return a.limit > b.limit\n		}\n", "")], f'''
import ("testing"; "time"; "{M}limiter/sliding_log")
func TestDemo(t *testing.T) {{
	a := sliding_log.NewSlidingLogLimiterStrategy(2, time.Minute)
	b := sliding_log.NewSlidingLogLimiterStrategy(3, time.Minute)
	_, e1 := sliding_log.NewSlidingLogLimiter(time.Second, b, a)
	_, e2 := sliding_log.NewSlidingLogLimiter(time.Second, a, b)
	if (e1 == nil) != (e2 == nil) {{ t.Fatal(e1, e2) }}
}}''', "two strategies with the same window given smaller limit first", "whether creation succeeds depends on the order of the strategies")

plant("reap-last-handle", "C07", [(C + "reap/reap.go", "	elem.index = -1\n", "	if h.Len() > 0 {\n		elem.index = -1\n	}\n")], f'''
import ("testing"; "{M}container/reap")
func TestDemo(t *testing.T) {{
	h := meap.New(func(a, b int) bool {{ return a < b }})
	e := h.Push(1)
	h.Pop()
	h.Push(2)
	if h.Remove(e) || h.Len() != 1 {{ t.Fatal("a popped element's handle removed another element") }}
}}''', "the handle of the element that left the heap empty, used after another push", "a stale handle removes or changes another element")

plant("dq-ms-order", "T01", [(T + "delayqueue/delayqueue.go", "return e1.expiration.Before(e2.expiration)", "return e1.expiration.UnixMilli() < e2.expiration.UnixMilli()")], f'''
import ("testing"; "testing/synctest"; "time"; "{M}timer/delayqueue")
func TestDemo(t *testing.T) {{
	synctest.Test(t, func(t *testing.T) {{
		q := delayqueue.New[int]()
		q.Push(2, 500*time.Microsecond)
		q.Push(1, 200*time.Microsecond)
		time.Sleep(300*time.Microsecond)
		if v, ok := q.Pop(); !ok || v != 1 {{ t.Fatal(v, ok) }}
	}})
}}''', "two elements due within one millisecond, the later one pushed first", "the earlier one is held back by the later one")

plant("wheel-interval-edge", "T03", [(T + "timingwheel/timing_wheel.go", "} else if t.expiration < currentTime+tw.interval {", "} else if t.expiration <= currentTime+tw.interval {")], f'''
import ("testing"; "testing/synctest"; "time"; "context"; "{M}timer/timingwheel")
func TestDemo(t *testing.T) {{
	for d := 1; d < 40; d++ {{
	for e := 0; e < 3; e++ {{
	synctest.Test(t, func(t *testing.T) {{
		tw := timingwheel.New(1, 4)
		ctx, c := context.WithCancel(context.Background())
		go tw.Run(ctx)
		time.Sleep(time.Duration(e) * time.Millisecond)
		start := time.Now()
		n := 0
		tw.AfterFunc(time.Duration(d)*time.Millisecond, func() {{
			n++
			if g := time.Since(start); g < time.Duration(d)*time.Millisecond || g > time.Duration(d+1)*time.Millisecond {{ t.Error(d, g) }}
		}})
		if e == 1 {{ tw.AfterFunc(0, func() {{}}); tw.AfterFunc(2*time.Millisecond, func() {{}}) }}
		time.Sleep(200 * time.Millisecond)
		if n != 1 {{ t.Error(d, "runs", n) }}
		c()
		synctest.Wait()
	}})
	}}
	}}
}}''', "a delay that ends exactly one round of the wheel after its current time", "the task is put in the bucket in use now")

plant("map-set-compare", "M01", [(H + "maps.go", "func (m *Map) Set(key interface{}, value interface{}) {\n	m.Lock()", "func (m *Map) Set(key interface{}, value interface{}) {\n	m.RLock()\n	if v, ok := m.m[key]; ok && v == value {\n		m.RUnlock()\n		return\n	}\n	m.RUnlock()\n	m.Lock()")], f'''
import ("testing"; "{UP}")
func TestDemo(t *testing.T) {{
	var m utils.Map
	m.Set("a", []int{{1}})
	m.Set("a", []int{{2}})
	if v := m.Get("a").([]int); v[0] != 2 {{ t.Fatal(v) }}
}}''', "a key set twice to values that cannot be compared (slices, maps)", "the second Set panics and leaves the lock held")

plant("map-testandset-nil", "M01", [(H + "maps.go", "	if v, ok := m.m[key]; ok {\n		return v", "	if v := m.m[key]; v != nil {\n		return v")], f'''
import ("testing"; "{UP}")
func TestDemo(t *testing.T) {{
	var m utils.Map
	m.Set("a", nil)
	m.TestAndSet("a", 1)
	if v := m.Get("a"); v != nil {{ t.Fatal(v) }}
}}''', "a key present with the value nil", "TestAndSet overwrites a present key")

plant("chunk-skip-same-size", "U01", [(H + "breakpoint_continue.go", '	path := FileDir + fileName + "_" + strconv.Itoa(contentNumber)\n', '	path := FileDir + fileName + "_" + strconv.Itoa(contentNumber)\n	if fi, err := os.Stat(path); err == nil && fi.Size() == int64(len(content)) {\n		return path, nil\n	}\n')], f'''
import ("testing"; "os"; "{UP}")
func TestDemo(t *testing.T) {{
	if os.Chdir(t.TempDir()) != nil {{ t.Fatal() }}
	utils.BreakPointContinue([]byte("bad"), "f", 0, 1, "m")
	utils.BreakPointContinue([]byte("new"), "f", 0, 1, "m")
	p, err := utils.MakeFile("f", "m")
	b, _ := os.ReadFile(p)
	if err != nil || string(b) != "new" {{ t.Fatal(string(b), err) }}
}}''', "a chunk sent again with other content of the same length", "the file is assembled from the old content")

plant("scandir-follow", "U03", [(H + "files.go", "			if info.IsDir() {\n				item, err := ScanDir(file)", "			if IsDir(file) {\n				item, err := ScanDir(file)")], f'''
import ("testing"; "os"; "{UP}")
func TestDemo(t *testing.T) {{
	if os.Chdir(t.TempDir()) != nil {{ t.Fatal() }}
	os.MkdirAll("a/b", 0o755)
	os.WriteFile("a/b/f", nil, 0o644)
	os.WriteFile("a/b/g", nil, 0o644)
	os.Symlink("b", "a/l")
	l, err := utils.ScanDir("a")
	if err != nil || len(l) != 3 {{ t.Fatal(l, err) }}
}}''', "a directory that holds a link to a directory", "files are listed twice, under the link too (for ever with a link to a parent)")

plant("csv-comment", "U04", [(H + "csv.go", "	content, err := r.ReadAll()", "	r.Comment = '#'\n	content, err := r.ReadAll()")], f'''
import ("testing"; "os"; "{UP}")
func TestDemo(t *testing.T) {{
	if os.Chdir(t.TempDir()) != nil {{ t.Fatal() }}
	utils.WriteCsv("f", []string{{"#1", "x"}})
	if r := utils.ReadCsv("f"); r == nil || len(*r) != 1 {{ t.Fatal(r) }}
}}''', "a row whose first field begins with #", "the row is not read back")

plant("mask-mobile-bytes", "U06", [(H + "strings.go", "	if len(_mobile) > 11 {", "	if len(mobile) > 11 {")], f'''
import ("testing"; "{UP}")
func TestDemo(t *testing.T) {{
	if s := utils.MaskMobile("１３８１２３４５６７８", 4); s != "１３８****５６７８" {{ t.Fatal(s) }}
}}''', "a number written with characters of more than one byte", "other digits than the protected ones are hidden")

plant("shell-warning-error", "U08", [(H + "cmd.go", "	if err := command.Run(); err != nil {\n		return nil, errors.New(errOut.String())\n	}", "	err := command.Run()\n	if err != nil || bytes.Contains(errOut.Bytes(), []byte(\"error\")) {\n		return nil, errors.New(errOut.String())\n	}")], f'''
import ("testing"; "{UP}")
func TestDemo(t *testing.T) {{
	b, err := utils.ShellExec("echo error >&2; echo out")
	if err != nil || b.String() != "out\\n" {{ t.Fatal(b, err) }}
}}''', "a successful command that mentions an error on its error output", "a success is reported as a failure and its output lost")

plant("json-trailing", "U10", [(H + "maps.go", "	_ = json.Unmarshal([]byte(str), &tempMap)\n", "	_ = json.NewDecoder(strings.NewReader(str)).Decode(&tempMap)\n"),
 (H + "maps.go", '	"encoding/json"\n	"sync"', '	"encoding/json"\n	"strings"\n	"sync"')], f'''
import ("testing"; "{UP}")
func TestDemo(t *testing.T) {{
	if m := utils.JsonStringToMap(`{{"a":1}}{{"a":2}}`); len(m) != 0 {{ t.Fatal(m) }}
}}''', "a text that goes on after a complete object", "a text that is no JSON object is accepted")

plant("round-negative-places", "N02", [(H + "math.go", "	pow10_n := math.Pow10(n)\n", "	pow10_n := 1.0\n	for i := 0; i < n; i++ {\n		pow10_n *= 10\n	}\n")], f'''
import ("testing"; "{UP}")
func TestDemo(t *testing.T) {{
	if f := utils.Round(1250, -2); f != 1300 {{ t.Fatal(f) }}
}}''', "rounding to tens or hundreds (a negative number of places)", "the number is rounded to a whole number instead")

plant("insert-dup-prefix", "D01", [("gorm_tools/gorm.go", 'strings.Contains(errString, "Duplicate entry")', 'strings.HasPrefix(errString, "Error 1062: Duplicate entry")')], DB + '''
func TestDemo(t *testing.T) {
	p := &pool{fail: "Error 1062 (23000): Duplicate entry '1' for key 'PRIMARY'"}
	err := gorm_tools.BatchInsertTableRecords(open(p), "t", map[string]interface{}{"id": 1})
	if err == nil || err.Error() != "duplicate record exists" { t.Fatal(err) }
}''', "a duplicate reported by another server or driver version", "a duplicate is not reported as such")

plant("zip-replace-once", "U02", [(H + "zip.go", "strings.Replace(file, oldForm, newForm, -1)", "strings.Replace(file, oldForm, newForm, 1)")], f'''
import ("testing"; "os"; "archive/zip"; "{UP}")
func TestDemo(t *testing.T) {{
	if os.Chdir(t.TempDir()) != nil {{ t.Fatal() }}
	os.MkdirAll("src/src", 0o755)
	os.WriteFile("src/src/f", nil, 0o644)
	if err := utils.ZipFiles("z.zip", []string{{"src/src/f"}}, "src/", ""); err != nil {{ t.Fatal(err) }}
	r, _ := zip.OpenReader("z.zip")
	if r.File[0].Name != "f" {{ t.Fatal(r.File[0].Name) }}
}}''', "a path which contains the text to replace twice", "the file is packed under another name")

plant("split-zero-per", "N01", [("common/math/math.go", "	last := n % per\n	if last == 0 {\n		last = per\n	}", "	last := n - per*(m-1)")], f'''
import ("testing"; "{M}math")
func TestDemo(t *testing.T) {{
	per, last := math.Split(9, 5)
	if per != 2 || last != 1 {{ t.Fatal(per, last) }}
	per, last = math.Split(5, 4)
	if per != 2 || last != 1 {{ t.Fatal(per, last) }}
}}''', "a number of parts that cannot all be filled", "the size of the last part wraps around")

plant("softdel-live-only", "D03", [("gorm_tools/gorm.go", '	updates["deleted_at"] = time.Now().Unix()\n	err := db.Table(tableName).Where("id=?", id).Updates(updates).Error', '	updates["deleted_at"] = time.Now().Unix()\n	err := db.Table(tableName).Where("id=? and deleted_at=0", id).Updates(updates).Error')], DB + '''
func TestDemo(t *testing.T) {
	p := &pool{}
	if err := gorm_tools.SoftDelByTableNameAndId("t", 7, open(p)); err != nil { t.Fatal(err) }
	if len(p.args) != 1 || len(p.args[0]) != 3 || strings.Contains(p.sql[0][strings.Index(p.sql[0], "WHERE"):], "deleted_at") { t.Fatal(p.sql, p.args) }
}''', "a row soft-deleted before", "its times are not set to the current time")
