M = "github.com/ahKevinXy/go-web-tools/common/"
UP = "github.com/ahKevinXy/go-web-tools/help/utils"
C = "common/container/"
L = "common/limiter/"
T = "common/timer/"
H = "help/utils/"
DB = 'import ("context"; "database/sql"; "errors"; "fmt"; "strings"; "testing"; "time"; "gorm.io/gorm"; "gorm.io/gorm/callbacks"; "gorm.io/gorm/logger"; "gorm.io/gorm/utils/tests"; "github.com/ahKevinXy/go-web-tools/gorm_tools")\nvar _ = fmt.Sprint\nvar _ = strings.Count\nvar _ = time.Now\n\ntype pool struct { n int; fail string; sql []string; args [][]interface{} }\nfunc (p *pool) PrepareContext(context.Context, string) (*sql.Stmt, error) { return nil, errors.New("no") }\nfunc (p *pool) QueryContext(context.Context, string, ...interface{}) (*sql.Rows, error) { return nil, errors.New("no") }\nfunc (p *pool) QueryRowContext(context.Context, string, ...interface{}) *sql.Row { return nil }\ntype res int64\nfunc (res) LastInsertId() (int64, error) { return 0, nil }\nfunc (r res) RowsAffected() (int64, error) { return int64(r), nil }\nfunc (p *pool) ExecContext(_ context.Context, q string, a ...interface{}) (sql.Result, error) {\n\tp.sql, p.args = append(p.sql, q), append(p.args, a)\n\tif p.fail != "" { return nil, errors.New(p.fail) }\n\treturn res(1), nil\n}\ntype dia struct { tests.DummyDialector }\nfunc (dia) Initialize(db *gorm.DB) error {\n\tcallbacks.RegisterDefaultCallbacks(db, &callbacks.Config{CreateClauses: []string{"INSERT", "VALUES"}, UpdateClauses: []string{"UPDATE", "SET", "WHERE"}, DeleteClauses: []string{"DELETE", "FROM", "WHERE"}})\n\treturn nil\n}\nfunc open(p *pool) *gorm.DB {\n\tdb, err := gorm.Open(dia{}, &gorm.Config{ConnPool: p, Logger: logger.Discard, SkipDefaultTransaction: true})\n\tif err != nil { panic(err) }\n\treturn db\n}\n\n'

plant("abs-via-float", "N01", [("common/math/math.go", "	if a < 0 {\n		return -a\n	}\n	return a\n", "	return T(math.Abs(float64(a)))\n")], f'''
import ("testing"; m "{M}math")
func TestDemo(t *testing.T) {{
	if m.Abs(int64(-(1<<62 + 1))) != 1<<62+1 {{ t.Fatal(m.Abs(int64(-(1<<62 + 1)))) }}
}}''', "a whole number of more than 53 bits", "the absolute value is rounded to a float")

plant("reload-start", "U13", [(H + "sys.go", "return cmd.Run()", "return cmd.Start()")], f'''
import ("os"; "path/filepath"; "testing"; "{UP}")
func TestDemo(t *testing.T) {{
	d := t.TempDir()
	if err := os.WriteFile(filepath.Join(d, "kill"), []byte("#!/bin/sh\\nexit 1\\n"), 0o755); err != nil {{ t.Fatal(err) }}
	os.Setenv("PATH", d) // never the real program
	if utils.Reload() == nil {{ t.Fatal("the signal was not sent and nobody was told") }}
}}''', "a kill program that fails", "success is reported before anything is known of the signal")

plant("rand-second-seed", "U07", [(H + "rand.go", "time.Now().UnixNano()", "time.Now().Unix()")], f'''
import ("testing"; "testing/synctest"; "time"; "{UP}")
func TestDemo(t *testing.T) {{
	synctest.Test(t, func(t *testing.T) {{
		a := utils.RandStr(32, 3)
		time.Sleep(time.Millisecond)
		if a == utils.RandStr(32, 3) {{ t.Fatal("twice the same text") }}
	}})
}}''', "two texts asked for within one second", "every text of the same size and class asked for in the same second is the same")

plant("shell-semicolon", "U08", [(H + "cmd.go", '	in.WriteString("\\n")\n	in.WriteString("exit\\n")\n', '	in.WriteString("; exit\\n")\n')], f'''
import ("testing"; "{UP}")
func TestDemo(t *testing.T) {{
	for cmd, want := range map[string]string{{"echo a &": "a\\n", "cat <<X\\nb\\nX": "b\\n", "for i in 1 2; do echo $i; done": "1\\n2\\n"}} {{
		out, err := utils.ShellExec(cmd)
		if err != nil || out.String() != want {{ t.Fatal(cmd, out, err) }}
	}}
}}''', "a command text ending in & or in a here document", "the text that ends the shell runs into the command")

plant("strint-base", "U10", [(H + "strings.go", "	r, _ := strconv.Atoi(s)\n	return r\n", "	r, _ := strconv.ParseInt(s, 0, 64)\n	return int(r)\n")], f'''
import ("testing"; "{UP}")
func TestDemo(t *testing.T) {{ if utils.StringToInt("010") != 10 {{ t.Fatal(utils.StringToInt("010")) }} }}
''', "a number with a leading zero", "it is read as octal")

plant("list-splice-self", "C01", [(C + "list/list.go", "for i, e := other.Len(), other.Front(); i > 0; i, e = i-1, e.Next()", "for e := other.Front(); e != nil; e = e.Next()")], f'''
import ("testing"; "{M}container/list")
func TestDemo(t *testing.T) {{
	l := list.New[int]()
	l.PushBack(1)
	done := make(chan bool, 1)
	go func() {{ l.PushBackList(l); done <- true }}()
	for i := 0; i < 1e8; i++ {{ select {{ case <-done: if l.Len() != 2 {{ t.Fatal(l.Len()) }}; return; default: }} ; if i > 1e7 {{ t.Fatal("never ends") }} }}
}}''', "a list appended to itself", "appending never ends")

plant("meap-update-up", "C06", [(C + "meap/maep.go", "		h.h[index].Value = value\n		h.fix(index)\n", "		h.h[index].Value = value\n		h.up(index)\n")], f'''
import ("testing"; "{M}container/meap")
func TestDemo(t *testing.T) {{
	h := meap.New(func(a, b meap.Entry[string, int]) bool {{ return a.Value < b.Value }})
	h.Push("a", 1); h.Push("b", 2); h.Push("a", 3)
	if h.Pop().Key != "b" {{ t.Fatal("order") }}
}}''', "a key pushed again with a later place", "the key keeps its earlier place")

plant("upload-lowercase", "U01", [(H + "breakpoint_continue.go", '	path := breakpointDir + fileMd5 + "/"\n', '	path := breakpointDir + strings.ToLower(fileMd5) + "/"\n')], f'''
import ("os"; "testing"; "{UP}")
func TestDemo(t *testing.T) {{
	if err := os.Chdir(t.TempDir()); err != nil {{ t.Fatal(err) }}
	if _, err := utils.BreakPointContinue([]byte("x"), "f", 0, 1, "ABC"); err != nil {{ t.Fatal(err) }}
	if _, err := utils.MakeFile("f", "ABC"); err != nil {{ t.Fatal(err) }}
}}''', "an upload whose digest is written with capitals", "its chunks are stored where assembly does not look, or mix with another upload's")

plant("zip-skip-empty", "U02", [(H + "zip.go", "			header, err := zip.FileInfoHeader(info)\n", "			if info.Size() == 0 {\n				return nil\n			}\n			header, err := zip.FileInfoHeader(info)\n")], f'''
import ("os"; "testing"; "{UP}")
func TestDemo(t *testing.T) {{
	if err := os.Chdir(t.TempDir()); err != nil {{ t.Fatal(err) }}
	os.WriteFile("e", nil, 0o644)
	if err := utils.ZipFiles("z", []string{{"e"}}, "", ""); err != nil {{ t.Fatal(err) }}
	l, err := utils.Unzip("z", "d")
	if err != nil || len(l) != 1 {{ t.Fatal(l, err) }}
}}''', "an empty file among those packed", "it is missing from the archive")

plant("isdir-lstat", "U03", [(H + "files.go", "	s, err := os.Stat(path)\n	if err != nil {\n		return false\n	}\n	return s.IsDir()\n", "	s, err := os.Lstat(path)\n	if err != nil {\n		return false\n	}\n	return s.IsDir()\n")], f'''
import ("os"; "testing"; "{UP}")
func TestDemo(t *testing.T) {{
	if err := os.Chdir(t.TempDir()); err != nil {{ t.Fatal(err) }}
	os.Mkdir("d", 0o755); os.Symlink("d", "l")
	if !utils.IsDir("l") || utils.IsFile("l") {{ t.Fatal("a link to a directory") }}
}}''', "a symbolic link to a directory", "it is neither a directory nor a file")

plant("where-everything", "D03", [("gorm_tools/gorm.go", "	err = db.Table(tableName).Where(where).Updates(updates).Error\n", "	err = db.Session(&gorm.Session{AllowGlobalUpdate: true}).Table(tableName).Where(where).Updates(updates).Error\n")], DB + '''
func TestDemo(t *testing.T) {
	p := &pool{}
	err := gorm_tools.UpdateByTableNameAndWhere("t", map[string]interface{}{}, map[string]interface{}{"a": 1}, open(p))
	if err == nil || len(p.sql) > 0 { t.Fatal(p.sql, err) }
}''', "an empty condition", "every row of the table is changed")

plant("csv-trim", "U04", [(H + "csv.go", "	r := csv.NewReader(fs)\n", "	r := csv.NewReader(fs)\n	r.TrimLeadingSpace = true\n")], f'''
import ("os"; "testing"; "{UP}")
func TestDemo(t *testing.T) {{
	if err := os.Chdir(t.TempDir()); err != nil {{ t.Fatal(err) }}
	if err := os.WriteFile("c", []byte("a, b\\n"), 0o644); err != nil {{ t.Fatal(err) }}
	if r := utils.ReadCsv("c"); r == nil || (*r)[0][1] != " b" {{ t.Fatal(r) }}
}}''', "a file whose field begins with a space and has no quotes", "the field loses its first characters")

plant("map-lockrange-shared", "M01", [(H + "maps.go", "func (m *Map) LockRange(f func(interface{}, interface{})) {\n	m.Lock()\n	defer m.Unlock()\n", "func (m *Map) LockRange(f func(interface{}, interface{})) {\n	m.RLock()\n	defer m.RUnlock()\n")], f'''
import ("sync"; "testing"; "time"; "{UP}")
func TestDemo(t *testing.T) {{
	var m utils.Map
	m.Set("n", 0)
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {{
		wg.Add(1)
		go func() {{
			defer wg.Done()
			m.LockRange(func(k, v interface{{}}) {{ time.Sleep(100*time.Millisecond); m.UnsafeSet("n", v.(int)+1) }})
		}}()
	}}
	wg.Wait()
	if m.Get("n") != 2 {{ t.Fatal(m.Get("n")) }}
}}''', "two exclusive visits at once, each changing what it visits", "one of the two changes is lost")

