M = "github.com/ahKevinXy/go-web-tools/common/"
UP = "github.com/ahKevinXy/go-web-tools/help/utils"
C = "common/container/"
L = "common/limiter/"
T = "common/timer/"
H = "help/utils/"
DB = 'import ("context"; "database/sql"; "errors"; "fmt"; "strings"; "testing"; "time"; "gorm.io/gorm"; "gorm.io/gorm/callbacks"; "gorm.io/gorm/logger"; "gorm.io/gorm/utils/tests"; "github.com/ahKevinXy/go-web-tools/gorm_tools")\nvar _ = fmt.Sprint\nvar _ = strings.Count\nvar _ = time.Now\n\ntype pool struct { n int; fail string; sql []string; args [][]interface{} }\nfunc (p *pool) PrepareContext(context.Context, string) (*sql.Stmt, error) { return nil, errors.New("no") }\nfunc (p *pool) QueryContext(context.Context, string, ...interface{}) (*sql.Rows, error) { return nil, errors.New("no") }\nfunc (p *pool) QueryRowContext(context.Context, string, ...interface{}) *sql.Row { return nil }\ntype res int64\nfunc (res) LastInsertId() (int64, error) { return 0, nil }\nfunc (r res) RowsAffected() (int64, error) { return int64(r), nil }\nfunc (p *pool) ExecContext(_ context.Context, q string, a ...interface{}) (sql.Result, error) {\n\tp.sql, p.args = append(p.sql, q), append(p.args, a)\n\tif p.fail != "" { return nil, errors.New(p.fail) }\n\treturn res(1), nil\n}\ntype dia struct { tests.DummyDialector }\nfunc (dia) Initialize(db *gorm.DB) error {\n\tcallbacks.RegisterDefaultCallbacks(db, &callbacks.Config{CreateClauses: []string{"INSERT", "VALUES"}, UpdateClauses: []string{"UPDATE", "SET", "WHERE"}, DeleteClauses: []string{"DELETE", "FROM", "WHERE"}})\n\treturn nil\n}\nfunc open(p *pool) *gorm.DB {\n\tdb, err := gorm.Open(dia{}, &gorm.Config{ConnPool: p, Logger: logger.Discard, SkipDefaultTransaction: true})\n\tif err != nil { panic(err) }\n\treturn db\n}\n\n'
LEAK = '''
import ("os"; "path/filepath"; "strings"; "testing"; "%s")
func held(dir string) (n int) {
	fs, _ := filepath.Glob("/proc/self/fd/*")
	for _, f := range fs {
		if to, err := os.Readlink(f); err == nil && strings.HasPrefix(to, dir) { n++ }
	}
	return
}
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	if err := os.Chdir(dir); err != nil { t.Fatal(err) }
	os.Mkdir("d", 0o755)
	os.WriteFile("f", []byte("a,b\\n\\"c"), 0o644)
	%%s
	if n := held(dir); n != 0 { t.Fatal(n, "files left open") }
}''' % UP

plant("copy-refused-leak", "U14", [(H + "files.go", "	defer src.Close()\n	dst, err := os.OpenFile(dstName, os.O_WRONLY|os.O_CREATE, 0644)\n	if err != nil {\n		return\n	}\n\n	defer dst.Close()\n", "	dst, err := os.OpenFile(dstName, os.O_WRONLY|os.O_CREATE, 0644)\n	if err != nil {\n		return\n	}\n\n	defer src.Close()\n	defer dst.Close()\n")], LEAK % 'utils.CopyFile("d", "f")', "a destination that cannot be written", "the source stays open after the refused copy")

plant("csv-malformed-leak", "U14", [(H + "csv.go", "	defer fs.Close()\n	r := csv.NewReader(fs)\n", "	r := csv.NewReader(fs)\n"), (H + "csv.go", "	return &content\n", "	if fs.Close() != nil {\n		return nil\n	}\n	return &content\n")], LEAK % 'utils.ReadCsv("f")', "a malformed table", "the file stays open after it could not be read")

plant("digest-unreadable-leak", "U14", [(H + "files.go", "	defer file.Close()\n	md5h := md5.New()\n", "	md5h := md5.New()\n"), (H + "files.go", '	if err == nil {\n		md5str = fmt.Sprintf("%x", md5h.Sum(nil))\n	}\n', '	if err == nil {\n		md5str = fmt.Sprintf("%x", md5h.Sum(nil))\n		err = file.Close()\n	}\n')], LEAK % 'utils.FileMd5("d")', "a path that opens but cannot be read", "the file stays open after the failed digest")

plant("zip-source-leak", "U14", [(H + "zip.go", "			defer zipFile.Close()\n", ""), (H + "zip.go", "			if _, err = io.Copy(writer, zipFile); err != nil {\n				return err\n			}\n			return nil\n", "			if _, err = io.Copy(writer, zipFile); err != nil {\n				return err\n			}\n			return zipFile.Close()\n")], LEAK % 'utils.ZipFiles("z", []string{"d"}, "", "")', "a source that opens but cannot be packed", "the source stays open after the failed packing")
