M = "github.com/ahKevinXy/go-web-tools/common/"
UP = "github.com/ahKevinXy/go-web-tools/help/utils"
C = "common/container/"
L = "common/limiter/"
T = "common/timer/"
H = "help/utils/"
DB = 'import ("context"; "database/sql"; "errors"; "fmt"; "strings"; "testing"; "time"; "gorm.io/gorm"; "gorm.io/gorm/callbacks"; "gorm.io/gorm/logger"; "gorm.io/gorm/utils/tests"; "github.com/ahKevinXy/go-web-tools/gorm_tools")\nvar _ = fmt.Sprint\nvar _ = strings.Count\nvar _ = time.Now\n\ntype pool struct { n int; fail string; sql []string; args [][]interface{} }\nfunc (p *pool) PrepareContext(context.Context, string) (*sql.Stmt, error) { return nil, errors.New("no") }\nfunc (p *pool) QueryContext(context.Context, string, ...interface{}) (*sql.Rows, error) { return nil, errors.New("no") }\nfunc (p *pool) QueryRowContext(context.Context, string, ...interface{}) *sql.Row { return nil }\ntype res int64\nfunc (res) LastInsertId() (int64, error) { return 0, nil }\nfunc (r res) RowsAffected() (int64, error) { return int64(r), nil }\nfunc (p *pool) ExecContext(_ context.Context, q string, a ...interface{}) (sql.Result, error) {\n\tp.sql, p.args = append(p.sql, q), append(p.args, a)\n\tif p.fail != "" { return nil, errors.New(p.fail) }\n\treturn res(1), nil\n}\ntype dia struct { tests.DummyDialector }\nfunc (dia) Initialize(db *gorm.DB) error {\n\tcallbacks.RegisterDefaultCallbacks(db, &callbacks.Config{CreateClauses: []string{"INSERT", "VALUES"}, UpdateClauses: []string{"UPDATE", "SET", "WHERE"}, DeleteClauses: []string{"DELETE", "FROM", "WHERE"}})\n\treturn nil\n}\nfunc open(p *pool) *gorm.DB {\n\tdb, err := gorm.Open(dia{}, &gorm.Config{ConnPool: p, Logger: logger.Discard, SkipDefaultTransaction: true})\n\tif err != nil { panic(err) }\n\treturn db\n}\n\n'

plant("update-leading-zero-id", "D02", [("gorm_tools/update.go", "make([]int64, 0, len(idUpdateMap))", "make([]int64, len(idUpdateMap))")], DB + '''
func TestDemo(t *testing.T) {
	p := &pool{}
	if err := gorm_tools.BatchUpdateTableFieldWithoutVersionByID(open(p), "t", map[int64]map[string]interface{}{7: {"a": 1}}); err != nil { t.Fatal(err) }
	for _, a := range p.args[0] {
		if a == int64(0) { t.Fatal("row 0 is named as well:", p.sql, p.args) }
	}
}''', "a row whose id is zero, of which the caller says nothing", "its fields are set to null")

plant("update-id-guard", "D03", [("gorm_tools/gorm.go", "	err := db.Table(tableName).Where(\"id=?\", id).Updates(updates).Error\n\n	if err != nil {\n		//logs.Errorf(\"删除表", "	if id <= 0 {\n		return nil\n	}\n	err := db.Table(tableName).Where(\"id=?\", id).Updates(updates).Error\n\n	if err != nil {\n		//logs.Errorf(\"删除表")], DB + '''
func TestDemo(t *testing.T) {
	p := &pool{}
	if err := gorm_tools.UpdateByTableNameAndId("t", -5, map[string]interface{}{"a": 1}, open(p)); err != nil { t.Fatal(err) }
	if len(p.sql) != 1 { t.Fatal("nothing was updated, and nobody was told") }
}''', "a row whose id is negative", "the update does nothing and reports success")
