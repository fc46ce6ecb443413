// Package database: a small in-memory database below gorm, and the drivers of gorm_tools.
package database

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"strconv"
	"strings"

	"gorm.io/gorm"
	"gorm.io/gorm/callbacks"
	"gorm.io/gorm/utils/tests"
)

// null is how an absent value is written down
const null = "~"

// text is the canonical form of a value: what a column holds does not depend on the Go type it came in
func text(v interface{}) (string, error) {
	d, err := driver.DefaultParameterConverter.ConvertValue(v)
	if err != nil {
		return "", err
	}
	switch x := d.(type) {
	case nil:
		return null, nil
	case int64:
		return strconv.FormatInt(x, 10), nil
	case float64:
		return strconv.FormatFloat(x, 'g', -1, 64), nil
	case bool:
		return strconv.FormatBool(x), nil
	case []byte:
		return string(x), nil
	case string:
		return x, nil
	}
	return fmt.Sprint(d), nil
}

type row map[string]string // without nulls

func dupText(s string) bool { return strings.Contains(strings.ToLower(s), "duplicate record") }

// stmt is one statement that reached the database
type stmt struct {
	kind string
	n    int // values bound
	rows int // rows of an insert
	hit  []string
	out  string
	sql  string
}

// fake is the database: tables, the statements it saw, the faults it is to produce
type fake struct {
	tables map[string][]row
	saved  map[string][]row // at the begin of the transaction
	inTx   bool
	log    []stmt
	faults map[int]string // statement number -> fail, dup, zero
	begins string         // fault of the next begin / commit
	ends   string
}

func (f *fake) PrepareContext(context.Context, string) (*sql.Stmt, error) {
	return nil, errors.New("fake: no prepared statements")
}
func (f *fake) QueryContext(context.Context, string, ...interface{}) (*sql.Rows, error) {
	return nil, errors.New("fake: no queries")
}
func (f *fake) QueryRowContext(context.Context, string, ...interface{}) *sql.Row { return &sql.Row{} }

type result int64

func (r result) LastInsertId() (int64, error) { return 0, nil }
func (r result) RowsAffected() (int64, error) { return int64(r), nil }

func clone(t map[string][]row) map[string][]row {
	c := map[string][]row{}
	for k, rs := range t {
		n := make([]row, len(rs))
		for i, r := range rs {
			n[i] = row{}
			for c, v := range r {
				n[i][c] = v
			}
		}
		c[k] = n
	}
	return c
}

// BeginTx starts a transaction on the one connection there is.
func (f *fake) BeginTx(context.Context, *sql.TxOptions) (gorm.ConnPool, error) {
	if f.inTx {
		return nil, errors.New("fake: transaction within a transaction")
	}
	if f.begins != "" {
		f.begins = ""
		return nil, errors.New("begin failed")
	}
	f.saved, f.inTx = clone(f.tables), true
	return &fakeTx{f, f}, nil
}

// fakeTx is the connection within a transaction: it cannot begin another
type fakeTx struct {
	gorm.ConnPool
	t *fake
}

func (x *fakeTx) Commit() error {
	t := x.t
	if !t.inTx {
		return sql.ErrTxDone
	}
	t.inTx = false
	if t.ends != "" {
		t.ends = ""
		t.tables = t.saved
		return errors.New("commit failed")
	}
	return nil
}

func (x *fakeTx) Rollback() error {
	t := x.t
	if !t.inTx {
		return sql.ErrTxDone
	}
	t.inTx, t.tables = false, t.saved
	return nil
}

func (f *fake) ExecContext(_ context.Context, q string, args ...interface{}) (sql.Result, error) {
	st := stmt{sql: q, n: len(args), out: "ok"}
	vals := make([]string, len(args))
	for i, a := range args {
		s, err := text(a)
		if err != nil {
			st.out = "bad"
			f.log = append(f.log, st)
			return nil, fmt.Errorf("argument %d: %v", i, err)
		}
		vals[i] = s
	}
	p, err := parse(q, vals)
	if err != nil {
		st.out = "bad"
		f.log = append(f.log, st)
		return nil, err
	}
	st.kind, st.rows = p.kind, len(p.rows)
	for _, r := range f.tables[p.table] {
		if p.kind != "insert" && (p.where == nil || p.where(r) == "true") {
			st.hit = append(st.hit, get(r, "id"))
		}
	}
	if x := f.faults[len(f.log)+1]; x != "" {
		st.out = x
		f.log = append(f.log, st)
		switch x {
		case "dup":
			// as different servers and drivers word it
			return nil, errors.New([]string{"Error 1062: Duplicate entry '7' for key 'PRIMARY'", "Error 1062 (23000): Duplicate entry '7' for key 't.PRIMARY'",
				"Error 1586: Duplicate entry '7' for key 't.name'", "Duplicate entry 'a, b' for key 'two'"}[len(f.log)%4])
		case "zero":
			return result(0), nil
		}
		return nil, errors.New("Error 2006: server has gone away")
	}
	n, err := p.run(f.tables)
	if err != nil {
		st.out = "bad"
	}
	f.log = append(f.log, st)
	if err != nil {
		return nil, err
	}
	return result(n), nil
}

type dialect struct{ tests.DummyDialector }

func (dialect) Initialize(db *gorm.DB) error {
	callbacks.RegisterDefaultCallbacks(db, &callbacks.Config{
		CreateClauses: []string{"INSERT", "VALUES", "ON CONFLICT"},
		UpdateClauses: []string{"UPDATE", "SET", "WHERE"},
		DeleteClauses: []string{"DELETE", "FROM", "WHERE"},
	})
	return nil
}

// ---- the language

type token struct {
	k byte // 'w' word, 'i' quoted identifier, 's' string, 'n' number, '?' parameter, or the punctuation itself
	s string
}

func lex(q string) ([]token, error) {
	var out []token
	for i := 0; i < len(q); {
		c := q[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '`':
			j := strings.IndexByte(q[i+1:], '`')
			if j < 0 {
				return nil, errors.New("syntax: open quote")
			}
			out = append(out, token{'i', q[i+1 : i+1+j]})
			i += j + 2
		case c == '\'' || c == '"':
			j := strings.IndexByte(q[i+1:], c)
			if j < 0 {
				return nil, errors.New("syntax: open string")
			}
			out = append(out, token{'s', q[i+1 : i+1+j]})
			i += j + 2
		case c >= '0' && c <= '9' || c == '-' && i+1 < len(q) && q[i+1] >= '0' && q[i+1] <= '9':
			j := i + 1
			for j < len(q) && (q[j] >= '0' && q[j] <= '9' || q[j] == '.') {
				j++
			}
			out = append(out, token{'n', q[i:j]})
			i = j
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80:
			j := i
			for j < len(q) && (q[j] == '_' || q[j] >= 'a' && q[j] <= 'z' || q[j] >= 'A' && q[j] <= 'Z' ||
				q[j] >= '0' && q[j] <= '9' || q[j] >= 0x80) {
				j++
			}
			out = append(out, token{'w', q[i:j]})
			i = j
		case strings.IndexByte("(),=.;<>!+-", c) >= 0 || c == '?':
			out = append(out, token{c, string(c)})
			i++
		default:
			return nil, fmt.Errorf("syntax: character %q", c)
		}
	}
	return out, nil
}

type expr func(r row) string // null when unknown

type prog struct {
	kind  string
	table string
	rows  []row
	sets  []struct {
		col string
		e   expr
	}
	where expr
	limit int // -1: none
}

type parser struct {
	t    []token
	i    int
	args []string
	a    int
}

type bad string

func (p *parser) peek() token {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return token{}
}

func (p *parser) kw(ws ...string) bool {
	for j, w := range ws {
		if p.i+j >= len(p.t) || p.t[p.i+j].k != 'w' || !strings.EqualFold(p.t[p.i+j].s, w) {
			return false
		}
	}
	p.i += len(ws)
	return true
}

func (p *parser) must(ws ...string) {
	if !p.kw(ws...) {
		panic(bad(fmt.Sprintf("expected %v at %v", ws, p.peek())))
	}
}

func (p *parser) is(k byte) bool {
	if p.peek().k == k {
		p.i++
		return true
	}
	return false
}

func (p *parser) need(k byte) {
	if !p.is(k) {
		panic(bad(fmt.Sprintf("expected %c at %v", k, p.peek())))
	}
}

var reserved = map[string]bool{"where": true, "set": true, "values": true, "from": true, "into": true, "case": true,
	"when": true, "then": true, "end": true, "in": true, "and": true, "or": true, "not": true, "null": true, "is": true,
	"else": true, "between": true, "limit": true, "select": true, "insert": true, "update": true, "delete": true}

func (p *parser) name() string {
	t := p.peek()
	if t.k != 'i' && t.k != 'w' || t.k == 'w' && reserved[strings.ToLower(t.s)] {
		panic(bad(fmt.Sprintf("expected a name at %v", t)))
	}
	p.i++
	if p.is('.') {
		return p.name()
	}
	return t.s
}

func (p *parser) arg() string {
	if p.a >= len(p.args) {
		panic(bad("more ? than values"))
	}
	p.a++
	return p.args[p.a-1]
}

func lit(s string) expr { return func(row) string { return s } }

func get(r row, c string) string {
	if v, ok := r[c]; ok {
		return v
	}
	return null
}

func truth(b bool) string {
	if b {
		return "true"
	}
	return "false"
}

func (p *parser) atom() expr {
	t := p.peek()
	switch {
	case p.is('?'):
		return lit(p.arg())
	case p.is('n'), p.is('s'):
		return lit(t.s)
	case p.kw("null"):
		return lit(null)
	case p.kw("true"), p.kw("false"):
		return lit(strings.ToLower(t.s))
	case p.is('('):
		e := p.or()
		p.need(')')
		return e
	case p.kw("case"):
		var subject expr
		if !(p.peek().k == 'w' && strings.EqualFold(p.peek().s, "when")) {
			subject = p.or()
		}
		var conds, vals []expr
		for p.kw("when") {
			conds = append(conds, p.or())
			p.must("then")
			vals = append(vals, p.or())
		}
		if len(conds) == 0 {
			panic(bad("case without when"))
		}
		other := lit(null)
		if p.kw("else") {
			other = p.or()
		}
		p.must("end")
		return func(r row) string {
			s := ""
			if subject != nil {
				s = subject(r)
			}
			for i, c := range conds {
				v := c(r)
				if subject == nil && v == "true" || subject != nil && s != null && v == s {
					return vals[i](r)
				}
			}
			return other(r)
		}
	}
	for _, f := range []string{"coalesce", "ifnull", "if"} {
		if p.i+1 < len(p.t) && p.t[p.i+1].k == '(' && p.kw(f) {
			p.i++
			var xs []expr
			for {
				xs = append(xs, p.or())
				if !p.is(',') {
					break
				}
			}
			p.need(')')
			if f == "if" {
				if len(xs) != 3 {
					panic(bad("if takes three values"))
				}
				return func(r row) string {
					if xs[0](r) == "true" {
						return xs[1](r)
					}
					return xs[2](r)
				}
			}
			return func(r row) string {
				for _, x := range xs {
					if v := x(r); v != null {
						return v
					}
				}
				return null
			}
		}
	}
	n := p.name()
	return func(r row) string { return get(r, n) }
}

func (p *parser) sum() expr {
	l := p.atom()
	for {
		sign := int64(1)
		switch {
		case p.is('+'):
		case p.is('-'):
			sign = -1
		default:
			return l
		}
		a, b := l, p.atom()
		l = func(r row) string {
			x, y := a(r), b(r)
			if x == null || y == null {
				return null
			}
			m, _ := strconv.ParseInt(x, 10, 64)
			n, _ := strconv.ParseInt(y, 10, 64)
			return strconv.FormatInt(m+sign*n, 10)
		}
	}
}

// compare as numbers when both are, else as texts
func compare(a, b string) int {
	m, e1 := strconv.ParseInt(a, 10, 64)
	n, e2 := strconv.ParseInt(b, 10, 64)
	switch {
	case e1 != nil || e2 != nil:
		return strings.Compare(a, b)
	case m < n:
		return -1
	case m > n:
		return 1
	}
	return 0
}

func ordered(x, y expr, f func(int) bool) expr {
	return func(r row) string {
		a, b := x(r), y(r)
		if a == null || b == null {
			return null
		}
		return truth(f(compare(a, b)))
	}
}

func not(e expr) expr {
	return func(r row) string {
		switch e(r) {
		case "true":
			return "false"
		case "false":
			return "true"
		}
		return null
	}
}

func both(a, b expr) expr {
	return func(r row) string {
		x, y := a(r), b(r)
		switch {
		case x == "false" || y == "false":
			return "false"
		case x == null || y == null:
			return null
		}
		return truth(x == "true" && y == "true")
	}
}

func (p *parser) cmp() expr {
	if p.kw("not") {
		return not(p.cmp())
	}
	l := p.sum()
	switch {
	case p.is('='):
		x := p.sum()
		return func(r row) string {
			a, b := l(r), x(r)
			if a == null || b == null {
				return null
			}
			return truth(a == b)
		}
	case p.peek().k == '<' && p.i+1 < len(p.t) && p.t[p.i+1].k == '>', p.peek().k == '!' && p.i+1 < len(p.t) && p.t[p.i+1].k == '=':
		p.i += 2
		x := p.sum()
		return func(r row) string {
			a, b := l(r), x(r)
			if a == null || b == null {
				return null
			}
			return truth(a != b)
		}
	case p.is('<'):
		eq := p.is('=')
		return ordered(l, p.sum(), func(d int) bool { return d < 0 || eq && d == 0 })
	case p.is('>'):
		eq := p.is('=')
		return ordered(l, p.sum(), func(d int) bool { return d > 0 || eq && d == 0 })
	case p.kw("between"), p.kw("not", "between"):
		neg := strings.EqualFold(p.t[p.i-2].s, "not")
		lo := p.sum()
		p.must("and")
		e := both(ordered(l, lo, func(d int) bool { return d >= 0 }), ordered(l, p.sum(), func(d int) bool { return d <= 0 }))
		if neg {
			return not(e)
		}
		return e
	case p.kw("is", "not", "null"):
		return func(r row) string { return truth(l(r) != null) }
	case p.kw("is", "null"):
		return func(r row) string { return truth(l(r) == null) }
	case p.kw("in"), p.kw("not", "in"):
		neg := strings.EqualFold(p.t[p.i-2].s, "not")
		p.need('(')
		deep := p.is('(')
		var xs []expr
		for {
			xs = append(xs, p.atom())
			if !p.is(',') {
				break
			}
		}
		p.need(')')
		if deep {
			p.need(')')
		}
		var set map[string]bool
		return func(r row) string {
			a := l(r)
			if set == nil {
				set = map[string]bool{}
				for _, x := range xs {
					set[x(r)] = true
				}
			}
			if a == null {
				return null
			}
			if set[a] {
				return truth(!neg)
			}
			if set[null] {
				return null
			}
			return truth(neg)
		}
	}
	return l
}

func (p *parser) and() expr {
	l := p.cmp()
	for p.kw("and") {
		a, b := l, p.cmp()
		l = func(r row) string {
			x, y := a(r), b(r)
			if x == "false" || y == "false" {
				return "false"
			}
			if x == null || y == null {
				return null
			}
			return truth(x == "true" && y == "true")
		}
	}
	return l
}

func (p *parser) or() expr {
	l := p.and()
	for p.kw("or") {
		a, b := l, p.and()
		l = func(r row) string {
			x, y := a(r), b(r)
			if x == "true" || y == "true" {
				return "true"
			}
			if x == null || y == null {
				return null
			}
			return "false"
		}
	}
	return l
}

func parse(q string, args []string) (g *prog, err error) {
	defer func() {
		if e := recover(); e != nil {
			b, ok := e.(bad)
			if !ok {
				panic(e)
			}
			g, err = nil, errors.New("Error 1064: syntax: "+string(b))
		}
	}()
	t, err := lex(q)
	if err != nil {
		return nil, err
	}
	p := &parser{t: t, args: args}
	g = &prog{limit: -1}
	switch {
	case p.kw("insert", "into"):
		g.kind, g.table = "insert", p.name()
		p.need('(')
		var cols []string
		for p.peek().k != ')' {
			cols = append(cols, p.name())
			if !p.is(',') {
				break
			}
		}
		p.need(')')
		seen := map[string]bool{}
		for _, c := range cols {
			if seen[c] {
				panic(bad("column twice"))
			}
			seen[c] = true
		}
		p.must("values")
		for {
			p.need('(')
			r, n := row{}, 0
			for p.peek().k != ')' {
				v := p.atom()(row{})
				if n < len(cols) && v != null {
					r[cols[n]] = v
				}
				n++
				if !p.is(',') {
					break
				}
			}
			p.need(')')
			if n != len(cols) {
				panic(bad("column count does not match value count"))
			}
			g.rows = append(g.rows, r)
			if !p.is(',') {
				break
			}
		}
	case p.kw("update"):
		g.kind, g.table = "update", p.name()
		p.must("set")
		for {
			c := p.name()
			p.need('=')
			g.sets = append(g.sets, struct {
				col string
				e   expr
			}{c, p.or()})
			if !p.is(',') {
				break
			}
		}
		if p.kw("where") {
			g.where = p.or()
		}
	case p.kw("delete", "from"):
		g.kind, g.table = "delete", p.name()
		if p.kw("where") {
			g.where = p.or()
		}
	default:
		panic(bad("unknown statement"))
	}
	if g.kind != "insert" && p.kw("limit") {
		n, err := strconv.Atoi(p.atom()(row{}))
		if err != nil {
			panic(bad("limit"))
		}
		g.limit = n
	}
	p.is(';')
	if p.i != len(p.t) {
		panic(bad(fmt.Sprintf("trailing %v", p.peek())))
	}
	if p.a != len(args) {
		panic(bad("more values than ?"))
	}
	return g, nil
}

func (g *prog) run(tables map[string][]row) (int, error) {
	rs, ok := tables[g.table]
	if !ok {
		return 0, fmt.Errorf("Error 1146: no table %q", g.table)
	}
	n := 0
	switch g.kind {
	case "insert":
		tables[g.table] = append(rs, g.rows...)
		n = len(g.rows)
	case "update":
		for i, r := range rs {
			if g.where != nil && g.where(r) != "true" || n == g.limit {
				continue
			}
			n++
			c := row{}
			for k, v := range r {
				c[k] = v
			}
			for _, s := range g.sets {
				if v := s.e(r); v == null {
					delete(c, s.col)
				} else {
					c[s.col] = v
				}
			}
			rs[i] = c
		}
	case "delete":
		var left []row
		for _, r := range rs {
			if g.where != nil && g.where(r) != "true" || n == g.limit {
				left = append(left, r)
			} else {
				n++
			}
		}
		tables[g.table] = left
	}
	return n, nil
}
